"""C30: operations act on exactly the paths, ids and contents requested."""
from common import *
from rules.dispatch import apply_fn
from rules.handlers import args_param, handler_bodies, in_tests, of_field

FS = re.compile(r"^(tokio|std|async_std|futures)::.*\bfs\b|^fs::")
SAME = {"clone", "cloned", "to_owned", "copied", "borrow", "as_ref", "from", "into", "deref", "borrow_mut", "as_mut", "deref_mut", "to_string", "as_str", "as_slice", "to_vec", "as_path",
        "to_path_buf", "as_os_str", "into_path_buf", "into_boxed_path", "as_mut_slice", "into_vec", "into_string", "into_os_string", "to_os_string"}
PATHISH = {"ok", "unwrap_or_else", "unwrap_or", "or_else", "ok_or", "canonicalize", "map_err", "into_ok_or_err"}
# what changes the disk
FREE = {"rename": 2, "remove_file": 1, "remove_dir": 1, "remove_dir_all": 1, "create_dir": 1, "create_dir_all": 1, "copy": 2, "hard_link": 2, "symlink": 2, "symlink_file": 2,
        "symlink_dir": 2, "soft_link": 2, "write": 2, "set_permissions": 2}
ON_FILE = {"set_len", "write_all", "write", "write_buf", "write_vectored", "write_all_buf", "shutdown", "set_permissions", "write_u8", "write_all_at", "write_at"}
READS = {"read_to_end", "read", "read_exact", "read_buf", "read_to_string", "take", "read_line"}
LOOKUPS = {"get", "get_mut", "remove", "entry", "remove_entry", "get_key_value", "index", "index_mut", "contains_key", "get_or_insert"}
FLAGS = ("is_file", "is_dir", "is_symlink")

# request fields by role, and what the reply repeats
PATHS = {
    "rename_unopened_file": dict(do=("rename",), ops=(".from", ".to"), says={"from": ".from", "to": ".to"}),
    "remove_unopened_file": dict(do=("remove_file",), ops=(".path",), says={"path": ".path"}),
    "create_dir": dict(do=("create_dir", "create_dir_all"), flag=".include_components", deep="create_dir_all", ops=(".path",), says={"path": ".path"}),
    "rename_dir": dict(do=("rename",), ops=(".from", ".to"), says={"from": ".from", "to": ".to"}),
    "remove_dir": dict(do=("remove_dir", "remove_dir_all"), flag=".non_empty", deep="remove_dir_all", ops=(".path",), says={"path": ".path"}),
    "list_dir_contents": dict(do=(), reads="read_dir", ops=(".path",), says={"path": ".path"}),
}
FILES = {
    "rename_file": dict(do="rename", says={"id": "id", "sig": "sig"}),
    "remove_file": dict(do="remove_file", says={"id": "id", "sig": "sig"}),
    "read_file": dict(do="read", says={"id": "id", "contents": "contents"}),
    "write_file": dict(do="write", says={"id": "id", "sig": "sig"}),
    "close_file": dict(do="close", says={"id": "id"}),
}
PROCS = {
    "write_proc_stdin": (), "read_proc_stdout": ("stdout",), "read_proc_stderr": ("stderr",), "read_proc_status": (), "kill_proc": (),
}


def peel(v):
    while True:
        if v.k in ("call", "pure") and tail(v) in SAME and args_of(v):
            v = args_of(v)[0]
        elif v.k == "op" and v.a[0].startswith("Cast") and len(v.a) > 1:
            v = v.a[1]
        else:
            return v


def fld(args, f):
    return mk("proj", args, f)


def path_is(v, p, as_is=False):
    """is v the path p, or its resolved form?"""
    while True:
        v = peel(v)
        if v is p:
            return True
        if v.k == "proj" and v.a[1] in (".0", "@Ok", "@Some", "@Err"):
            v = v.a[0]
        elif v.k == "agg" and v.a[1] in ("Ok", "Some", "Owned", "Borrowed") and len(v.a[2]) == 1:
            v = v.a[2][0][1]
        elif not as_is and v.k in ("call", "pure") and tail(v) in PATHISH and args_of(v):
            if tail(v) == "unwrap_or" and not path_is(args_of(v)[1], p):
                return False
            if tail(v) in ("unwrap_or_else", "or_else") and not contains(args_of(v)[1], lambda x: x is p):
                return False
            v = args_of(v)[0]
        elif v.k in ("call", "pure") and tail(v) in ("new", "join") and "Path" in v.a[0] and len(args_of(v)) == 1:
            v = args_of(v)[0]
        else:
            return False


def lookup_of(v, field, i):
    """the entry of state.<field> that belongs to id i, from which v comes"""
    def hit(x):
        return x.k in ("call", "pure") and tail(x) in LOOKUPS and len(args_of(x)) > 1 and of_field(args_of(x)[0], field) and peel(args_of(x)[1]) is i
    return next((x for x in subterms(v) if hit(x)), None)


def other_lookup(v, field, i):
    return next((x for x in subterms(v) if x.k in ("call", "pure") and tail(x) in LOOKUPS and len(args_of(x)) > 1 and of_field(args_of(x)[0], field)
                 and not (peel(args_of(x)[1]) is i or of_own(peel(args_of(x)[1]), field, i))), None)


def of_own(v, field, i):
    """the id stored in the entry that belongs to id i"""
    return v.k == "proj" and v.a[1] == ".id" and lookup_of(v, field, i) is not None


def relevant(x):
    return x.file().startswith(("src/core/server/state.rs", "src/core/server/action/handler", "src/utils/ttl", "src/core/server/fs", "src/core/server/proc")) and not x.derived


def touches_file(ev):
    """does the call work on an open file?"""
    return bool(ev.terms) and contains(ev.terms[0], lambda x: x.k == "proj" and x.a[1] == ".file")


def want(c):
    if c.local:
        return False
    return FS.match(c.path) is not None or c.name in ON_FILE or c.name in READS or c.name in ("seek", "rewind", "flush", "push", "try_clone", "sync_all", "sync_data") or c.name in LOOKUPS


def effect(ev):
    """(name, operands) if the call may change what is on disk"""
    if ev.kind != "call":
        return None
    if FS.match(ev.path) and not ev.self_adt and ev.name in FREE:
        return ev.name, ev.terms
    if FS.match(ev.path) and ev.self_adt and (ev.name in ("create", "create_new", "options") and path_match(ev.self_adt, "File") or path_match(ev.self_adt, "DirBuilder") and ev.name == "create"):
        return ev.short, ev.terms
    if "OpenOptions" in ev.path and ev.name == "open":
        return "open", ev.terms
    if ev.name in ON_FILE and touches_file(ev):
        return "file." + ev.name, ev.terms
    return None


def ran(st, ev):
    """did it take effect, as far as is known?"""
    return st.ref.get(ev.res) != ("is", "Err")


def ok_value(v):
    """the value of a success, None for anything else"""
    if v.k == "agg" and v.a[1] == "Ok":
        return dict(v.a[2])["0"]
    return None


def err_value(v):
    return dict(v.a[2])["0"] if v.k == "agg" and v.a[1] == "Err" else None


def fields(v):
    return dict(v.a[2]) if v is not None and v.k == "agg" else {}


def go(ctx, b, on_event, on_ret, branches=None, more=None):
    r = Trace(want=lambda c: want(c) or more is not None and more(c), on_event=on_event, on_ret=on_ret, wantbranch=branches or (lambda t: False))
    r.keep_all_refinements = True
    r.max_hist = 60
    r.relevant_body = relevant
    return ctx.run(r, ctx.f.coroutine_of(b) or b, what="handler::" + b.name)


def check(ctx):
    ctx.explanation = ("Every file, directory and process operation is followed from its request down to the calls of the operating system layer, through all helpers. Each of those calls "
                       "must be the one the operation stands for, on operands that are the request's own fields in their roles, or the parts of the open file or process the request's "
                       "id stands for; the flags decide between the plain and the recursive form; and what a reply says must be about that same object.")
    ctx.rules = ["a path operation changes the disk by its own call only, once, on the paths of the request in their roles", "the recursive form is used exactly if asked for",
                 "an operation on an open file works on the file with the id of the request: its own path, its own descriptor", "a write replaces everything by the contents of the request",
                 "a read starts at the beginning and hands out everything", "a process operation looks at the process with the id of the request, and at the stream it is named for",
                 "replies repeat the id and path of the request, and carry the signature and contents of that object", "a listing has every entry of the directory asked for, each with its own path and kind"]
    n = {"ops": 0, "oks": 0, "effects": 0}
    check_paths(ctx, n)
    check_files(ctx, n)
    check_open(ctx, n)
    check_list(ctx)
    check_procs(ctx, n)
    ctx.count("operations", n["ops"], 17)
    ctx.count("successful ends", n["oks"], 17)
    ctx.count("effects", n["effects"], 9)


def deep_only(st, flag):
    return st.ref.get(flag)


def check_paths(ctx, n):
    for name, spec in PATHS.items():
        for b in handler_bodies(ctx, name):
            n["ops"] += 1
            args = args_param(b)
            ops = [fld(args, f) for f in spec["ops"]]

            def on_event(eng, st, hist, ev, name=name, spec=spec, ops=ops, args=args):
                e = effect(ev)
                if e is None:
                    if ev.kind == "call" and spec.get("reads") == ev.name and FS.match(ev.path):
                        n["effects"] += 1
                        eng.oblige("the directory read is the one asked for", path_is(ev.terms[0], ops[0]), name + ":read", "%s reads another directory than the one asked for" % name, st, ev.span)
                    return
                n["effects"] += 1
                what, terms = e
                if what not in spec["do"]:
                    eng.report(name + ":does:" + what, "%s does %s, which was not asked for" % (name, ev.short), st, ev.span)
                    return
                ok = len(terms) >= len(ops) and all(path_is(t, o) for t, o in zip(terms, ops))
                eng.oblige("a path operation works on the paths of the request in their roles", ok, name + ":paths", "%s calls %s on other paths than the request names for it" % (
                    name, ev.short), st, ev.span)
                if "flag" in spec:
                    r = st.ref.get(fld(args, spec["flag"]))
                    eng.oblige("the recursive form is used exactly if asked for", r == ("is", what == spec["deep"]), name + ":" + what, "%s calls %s without %s having been found %s" % (
                        name, ev.short, spec["flag"][1:], "set" if what == spec["deep"] else "unset"), st, ev.span)

            def on_ret(eng, st, hist, val, name=name, spec=spec, args=args):
                v = ok_value(val)
                if v is None:
                    return
                n["oks"] += 1
                did = [e for e in hist if effect(e) is not None or e.kind == "call" and spec.get("reads") == e.name and FS.match(e.path)]
                ok = len(did) == 1 and st.ref.get(did[0].res) == ("is", "Ok")
                ok = ok or len(did) == 1 and v is did[0].res
                eng.oblige("success means the operation was carried out", ok, name + ":done", "%s can succeed without having been carried out exactly once" % name, st)
                says(eng, st, name, v, {k: fld(args, f) for k, f in spec["says"].items()})
            go(ctx, b, on_event, on_ret)


def says(eng, st, name, v, want):
    f = fields(v)
    for k, t in want.items():
        ok = k in f and path_is(f[k], t, as_is=True)
        eng.oblige("a reply is about the object of its request", ok, "%s:says:%s" % (name, k), "the reply to %s carries another %s than the request" % (name, k), st)


def check_files(ctx, n):
    for name, spec in FILES.items():
        for b in handler_bodies(ctx, name):
            n["ops"] += 1
            args = args_param(b)
            aid = fld(args, ".id")

            def on_event(eng, st, hist, ev, name=name, spec=spec, args=args, aid=aid):
                if ev.kind != "call":
                    return
                for t in ev.terms[:2]:
                    x = other_lookup(t, "files", aid)
                    if x is not None:
                        eng.report(name + ":other", "%s looks at another open file than the one the request names" % name, st, ev.span)
                if ev.name in LOOKUPS and len(ev.terms) > 1 and of_field(ev.terms[0], "files"):
                    k = peel(ev.terms[1])
                    eng.oblige("the file is the one the request names", k is aid or of_own(k, "files", aid), name + ":id", "%s looks up another id than the one in its request" % name, st, ev.span)
                e = effect(ev)
                mine = lambda t, part: t.k == "proj" and t.a[1] == part and lookup_of(t, "files", aid) is not None
                rep = lambda key, msg: eng.report("%s:%s" % (name, key), msg, st, ev.span)
                if e is not None:
                    n["effects"] += 1
                    what, terms = e
                    do = spec["do"]
                    if what == do == "rename":
                        eng.oblige("an open file is renamed from its own path", mine(peel(terms[0]), ".path"), name + ":from", "%s renames something else than the open file" % name, st, ev.span)
                        eng.oblige("an open file is renamed to the path asked for", path_is(terms[1], fld(args, ".to")), name + ":to", "%s renames to another path than the one asked for" % name, st, ev.span)
                    elif what == do == "remove_file":
                        eng.oblige("it is the open file that is removed", mine(peel(terms[0]), ".path"), name + ":path", "%s removes something else than the open file" % name, st, ev.span)
                    elif do == "write" and what in ("file.set_len", "file.write_all"):
                        if not contains(terms[0], lambda t: mine(t, ".file")):
                            rep("file", "%s writes to something else than the open file" % name)
                        before = [x.name for x in hist if x.kind == "call" and touches_file(x)]
                        if what == "file.set_len":
                            ok = is_zero(terms[1]) and "write_all" not in before
                            eng.oblige("the old contents are given up first", ok, name + ":cut", "%s cuts the file at the wrong place or time" % name, st, ev.span)
                        else:
                            ok = peel(terms[1]) is fld(args, ".contents")
                            eng.oblige("the contents of the request are written whole", ok, name + ":contents", "%s writes something else than the contents of the request" % name, st, ev.span)
                            ok = "set_len" in before and at_start(hist) and "write_all" not in before
                            eng.oblige("writing starts at the beginning of an emptied file", ok, name + ":place", "%s writes without having emptied the file and gone to its beginning" % name, st, ev.span)
                    else:
                        rep("does:" + what, "%s does %s, which was not asked for" % (name, ev.short))
                elif ev.name in READS and touches_file(ev):
                    n["effects"] += 1
                    if spec["do"] != "read" or ev.name not in ("read_to_end",):
                        rep("does:" + ev.name, "%s does %s, which does not read the whole file" % (name, ev.short))
                        return
                    if not contains(ev.terms[0], lambda t: mine(t, ".file")):
                        rep("file", "%s reads something else than the open file" % name)
                    ok = at_start(hist) and not any(x.kind == "call" and x.name in READS and touches_file(x) for x in hist)
                    eng.oblige("reading starts at the beginning", ok, name + ":place", "%s reads without having gone to the beginning of the file" % name, st, ev.span)
                    eng.oblige("a read starts with nothing", len(ev.terms) > 1 and empty(ev.terms[1]), name + ":buffer", "%s adds what it reads to something else" % name, st, ev.span)
                elif ev.name == "take" and touches_file(ev):
                    rep("does:take", "%s reads only a part of the file" % name)

            def on_ret(eng, st, hist, val, name=name, spec=spec, args=args, aid=aid):
                v = ok_value(val)
                if v is None:
                    x = err_value(val)
                    if x is not None and x.k == "agg" and x.a[1] == "SigMismatch":
                        f = fields(x)
                        ok = "id" in f and (peel(f["id"]) is aid or of_own(peel(f["id"]), "files", aid))
                        eng.oblige("a refusal is about the file of its request", ok, name + ":refused:id", "%s is refused under another id" % name, st)
                        ok = "sig" in f and sig_of(f["sig"], aid)
                        eng.oblige("a refusal tells the file's signature", ok, name + ":refused:sig", "%s is refused with something else than the file's signature" % name, st)
                    return
                n["oks"] += 1
                do = spec["do"]
                need = {"rename": ("rename",), "remove_file": ("remove_file",), "write": ("set_len", "write_all", "flush"), "read": ("read_to_end",), "close": ()}[do]
                for x in need:
                    es = [e for e in hist if e.kind == "call" and e.name == x and (FS.match(e.path) and not e.self_adt or touches_file(e))]
                    ok = bool(es) and all(st.ref.get(e.res) == ("is", "Ok") or es[-1].res is val for e in es[-1:])
                    eng.oblige("success means the operation was carried out", ok, "%s:done:%s" % (name, x), "%s can succeed without %s having succeeded" % (name, x), st)
                if do == "write" and ok:
                    names = [e.name for e in hist if e.kind == "call" and touches_file(e) and e.name in ("set_len", "write_all", "flush", "seek")]
                    if names[-1] != "flush":
                        eng.report(name + ":flush", "%s can succeed with something not yet flushed" % name, st)
                f = fields(v)
                for k, role in spec["says"].items():
                    if k not in f:
                        eng.report("%s:says:%s" % (name, k), "the reply to %s has no %s" % (name, k), st)
                        continue
                    t = peel(f[k])
                    if role == "id":
                        ok = t is aid or of_own(t, "files", aid)
                    elif role == "sig":
                        ok = sig_of(t, aid)
                    else:
                        ok = whole_read(t, hist, st)
                    eng.oblige("a reply is about the object of its request", ok, "%s:says:%s" % (name, k), "the reply to %s carries another %s than that of the file" % (name, k), st)
                if do == "close":
                    shut = [e for e in hist if e.kind == "call" and e.name in ("entry", "remove", "remove_entry") and of_field(e.terms[0], "files")]
                    eng.oblige("success means the file was taken out", bool(shut), name + ":done", "%s can succeed without touching the open files" % name, st)
            go(ctx, b, on_event, on_ret)


def sig_of(t, aid):
    """the signature of the file: what is stored, or a new one"""
    t = peel(t)
    if t.k == "proj" and t.a[1] == ".sig":
        return lookup_of(t, "files", aid) is not None
    return contains(t, lambda x: tail(x) in ("next_u32", "gen", "random", "sample", "gen_range", "next_u64"))


def is_zero(t):
    t = peel(t)
    return t.k == "c" and t.a[0] == 0 and t.a[0] is not False


def at_start(hist):
    """is the position of the file its beginning?"""
    pos = False
    for e in hist:
        if e.kind != "call" or not touches_file(e):
            continue
        if e.name == "seek":
            p = peel(e.terms[1])
            pos = p.k == "agg" and p.a[1] == "Start" and is_zero(dict(p.a[2])["0"])
        elif e.name == "rewind":
            pos = True
        elif e.name in READS or e.name in ON_FILE and e.name != "set_len":
            pos = False
    return pos


def empty(t):
    t = peel(t)
    return t.k in ("call", "pure") and (tail(t) == "new" or tail(t) in ("with_capacity", "default")) or t.k == "agg" and not t.a[2]


def whole_read(t, hist, st):
    """everything read_to_end put into the buffer, and nothing else"""
    t = peel(t)
    es = [e for e in hist if e.kind == "call" and e.name == "read_to_end"]
    if not es or not mut_like(t):
        return False
    return tail_mut(t) == "read_to_end" and contains(t, lambda x: x is es[-1].terms[1])


def mut_like(t):
    return t.k == "mut"


def tail_mut(t):
    return re.sub(r"#\d+$", "", t.a[0].rsplit("::", 1)[-1]) if t.k == "mut" else ""


def check_open(ctx, n):
    name = "open_file"
    for b in handler_bodies(ctx, name):
        n["ops"] += 1
        args = args_param(b)
        path = fld(args, ".path")

        def on_event(eng, st, hist, ev):
            e = effect(ev)
            if e is None:
                return
            n["effects"] += 1
            what, terms = e
            if what != "open":
                eng.report(name + ":does:" + what, "%s does %s, which was not asked for" % (name, ev.short), st, ev.span)
                return
            eng.oblige("the file opened is the one asked for", path_is(terms[1], path), name + ":path", "%s opens another path than the one asked for" % name, st, ev.span)
            # which flags it must be opened with: C21

        def on_ret(eng, st, hist, val):
            v = ok_value(val)
            if v is None:
                return
            n["oks"] += 1
            says(eng, st, name, v, {"path": path, "read": fld(args, ".read_access"), "write": fld(args, ".write_access")})
            f = fields(v)
            ok = all(k in f for k in ("id", "sig"))
            if ok:
                i, s = peel(f["id"]), peel(f["sig"])
                stored = [x for x, y in ((i, ".id"), (s, ".sig")) if x.k == "proj" and x.a[1] == y]
                fresh = [x for x in (i, s) if tail(x) in ("next_u32", "gen", "random")]
                ok = len(stored) == 2 and base_file(i.a[0]) is base_file(s.a[0]) or len(fresh) == 2
                ins = [e for e in hist if e.kind == "call" and e.name == "insert" and of_field(e.terms[0], "files")]
                for e in ins:
                    d = fields(e.terms[2])
                    ok = ok and peel(e.terms[1]) is i and (not d or d.get("id") is not None and peel(d["id"]) is i and peel(d["sig"]) is s)
            eng.oblige("a reply is about the object of its request", ok, name + ":says:handle", "the reply to %s carries another id or signature than those of the opened file" % name, st)
        go(ctx, b, on_event, on_ret, more=lambda c: c.name == "insert" and "HashMap" in c.path)


def base_file(v):
    return v


# ---------------------------------------------------------------- listing
def kind_entry(v):
    """the one thing an entry is made from, None if it is made from several or wrongly"""
    f = fields(v)
    if not all(k in f for k in ("path",) + FLAGS):
        return None
    src = None
    p = f["path"]
    while True:
        p = peel(p)
        if p.k in ("call", "pure") and tail(p) in ("map_err", "ok", "ok_or", "ok_or_else", "to_str") and args_of(p):
            p = args_of(p)[0]
        elif p.k == "proj" and p.a[1] in ("@Ok", "@Some") or p.k == "proj" and p.a[1] == ".0" and p.a[0].k == "proj" and p.a[0].a[1] in ("@Ok", "@Some") and tail(p.a[0].a[0]) in (
                "map_err", "ok", "ok_or", "ok_or_else", "to_str", "into_string"):
            p = p.a[0]
        else:
            break
    if p.k in ("call", "pure") and tail(p) == "path" and args_of(p):
        src = args_of(p)[0]
    elif p.k == "proj" and p.a[1] == ".path":
        src = p.a[0]
    if src is None:
        return None
    for k in FLAGS:
        t = peel(f[k])
        if t.k == "proj" and t.a[1] == "." + k:
            o = t.a[0]
        elif t.k in ("call", "pure") and tail(t) == k and args_of(t):
            o = args_of(t)[0]
            while o.k == "proj" and o.a[1] in (".0", "@Ok") or o.k in ("call", "pure") and tail(o) in SAME:
                o = o.a[0] if o.k == "proj" else args_of(o)[0]
            if tail(o) != "file_type" or not args_of(o):
                return None
            o = args_of(o)[0]
        else:
            return None
        if peel(o) is not peel(src):
            return None
    return src


def check_list(ctx):
    """every entry of the stream becomes one entry of the listing, unchanged"""
    n = {"pushed": 0, "oks": 0, "made": 0}
    for b in handler_bodies(ctx, "list_dir_contents"):
        name = b.name
        is_next = lambda e: e.kind == "call" and e.name in ("next_entry", "poll_next_entry") or e.kind == "call" and e.name == "next" and contains(e.res, lambda x: tail(x) in ("read_dir",))
        is_entry = lambda v: v.k == "agg" and {"path", "is_file", "is_dir", "is_symlink"} <= set(fields(v))

        def some(e, st):
            for t, r in st.items():
                if r == ("is", "Some") and t.k == "proj" and t.a[1] == ".0" and t.a[0].k == "proj" and t.a[0].a[0] is e.res:
                    return True
            return False

        def listed(eng, hist, upto):
            """was what the last round found put into a list?"""
            i = max([k for k, e in enumerate(hist) if e is upto] or [-1])
            return any(e.kind == "call" and e.name == "push" and is_entry(e.terms[-1]) for e in hist[i + 1:])

        def on_event(eng, st, hist, ev):
            if ev.kind != "call":
                return
            if ev.name == "push" and is_entry(ev.terms[-1]):
                n["pushed"] += 1
                src = kind_entry(ev.terms[-1])
                eng.oblige("each entry has its own path and kind", src is not None, name + ":entry", "an entry of a listing has a path or kind that is not its own", st, ev.span)
            if is_next(ev):
                prev = [e for e in hist if is_next(e)]
                if prev and (some(prev[-1], eng.dropped) or some(prev[-1], st.ref)):
                    eng.oblige("no entry is left out", listed(eng, hist, prev[-1]), name + ":left", "an entry of the directory can be missing from its listing", st, ev.span)

        def on_ret(eng, st, hist, val):
            v = ok_value(val)
            if v is None:
                return
            n["oks"] += 1
            es = [e for e in hist if is_next(e)]
            ended = any(r == ("is", "None") and any(contains(t, lambda x, e=e: x is e.res) for e in es) for t, r in st.ref.items())
            eng.oblige("a listing goes on to the end of the directory", bool(es) and ended, name + ":end", "a listing can succeed without having reached the end of the directory", st)
            x = fields(v).get("entries")
            ok, made = whole_list(ctx, x) if x is not None else (False, 0)
            n["made"] += made
            eng.oblige("the entries of the reply are all those found", ok, name + ":entries", "the entries of the reply are not exactly those found in the directory", st)
        go(ctx, b, on_event, on_ret)
    ctx.count("entries put into a list", n["pushed"], 1)
    ctx.count("listings", n["oks"], 1)


def whole_list(ctx, x):
    """is the list made of all that was found, by steps that neither drop nor change anything?"""
    made = 0
    while True:
        x = peel(x)
        if x.k == "proj" and x.a[1] in (".0", "@Ok"):
            x = x.a[0]
        elif x.k in ("call", "pure") and tail(x) in ("collect", "into_iter", "iter", "drain", "try_collect", "map_err", "by_ref") and args_of(x):
            x = args_of(x)[0]
        elif x.k in ("call", "pure") and tail(x) == "map" and len(args_of(x)) == 2:
            elem = param("an entry")
            rets = apply_fn(ctx, args_of(x)[1], elem, relevant=relevant)
            if not rets:
                return False, made
            for v, ref, h in rets:
                if v.k == "agg" and v.a[1] == "Ok":
                    v = dict(v.a[2])["0"]
                elif v.k == "agg" and v.a[1] == "Err" or v.k in ("call", "pure") and tail(v) in ("from_residual",):
                    continue
                src = kind_entry(v)
                if src is None or not contains(src, lambda t: t is elem):
                    return False, made
                made += 1
            x = args_of(x)[0]
        elif x.k == "mut":
            # a list built up
            if tail_mut(x) not in ("loopacc", "push", "reserve", "shrink_to_fit", "sort", "sort_by", "sort_by_key"):
                return False, made
            x = mut_base(x)
        else:
            return x.k in ("call", "pure") and tail(x) in ("new", "with_capacity", "default") or x.k == "loop" or x.k == "agg" and not x.a[2] or x.k in ("phi", "top", "any"), made


# ---------------------------------------------------------------- processes
def check_procs(ctx, n):
    for name, streams in PROCS.items():
        for b in handler_bodies(ctx, name):
            n["ops"] += 1
            args = args_param(b)
            aid = fld(args, ".id")
            other = {"stdout": "stderr", "stderr": "stdout"}.get(streams[0]) if streams else None

            def mine(v):
                return contains(v, lambda t: t.k in ("call", "pure") and tail(t) in LOOKUPS and len(args_of(t)) > 1 and of_field(args_of(t)[0], "procs") and peel(args_of(t)[1]) is aid)

            def on_event(eng, st, hist, ev, name=name, aid=aid, other=other, args=args):
                if ev.kind != "call":
                    return
                if ev.name in LOOKUPS and len(ev.terms) > 1 and of_field(ev.terms[0], "procs") and "HashMap" in ev.path:
                    n["effects"] += 1
                    eng.oblige("the process is the one the request names", peel(ev.terms[1]) is aid, name + ":id", "%s looks up another id than the one in its request" % name, st, ev.span)
                if ev.name in ON_FILE and name == "write_proc_stdin" and of_field(ev.terms[0], "stdin", "inner"):
                    n["effects"] += 1
                    ok = ev.name == "write_all" and mine(ev.terms[0]) and peel(ev.terms[1]) is fld(args, ".input")
                    ok = ok and of_field(ev.terms[0], "stdin") and not any(e.kind == "call" and e.name == "write_all" and of_field(e.terms[0], "stdin") for e in hist)
                    eng.oblige("the input of the request is written whole, once", ok, name + ":input", "%s writes something else than the input of the request" % name, st, ev.span)
                if other and any(of_field(t, other, other + "_buf") for t in ev.terms):
                    eng.report(name + ":stream", "%s uses the %s of the process" % (name, other), st, ev.span)

            def on_ret(eng, st, hist, val, name=name, aid=aid, other=other, streams=streams, args=args):
                v = ok_value(val)
                if v is None:
                    return
                n["oks"] += 1
                f = fields(v)
                ok = "id" in f and peel(f["id"]) is aid
                eng.oblige("a reply is about the object of its request", ok, name + ":says:id", "the reply to %s carries another id than the request" % name, st)
                if streams:
                    o = peel(f.get("output", val))
                    ok = empty(o) or mine(o) and of_field(o, streams[0], streams[0] + "_buf")
                    ok = ok and not of_field(o, other, other + "_buf")
                    eng.oblige("a read hands out the output of its own stream", ok, name + ":output", "the reply to %s carries something else than the %s of the process" % (name, streams[0]), st)
                if name == "write_proc_stdin":
                    es = [e for e in hist if e.kind == "call" and e.name == "write_all"]
                    ok = bool(es) and st.ref.get(es[-1].res) == ("is", "Ok")
                    eng.oblige("success means the operation was carried out", ok, name + ":done", "%s can succeed without everything having been written" % name, st)
                if name in ("read_proc_status", "kill_proc") and "exit_code" in f:
                    t = peel(f["exit_code"])
                    ok = t.k == "agg" and t.a[1] == "None" or mine(t)
                    eng.oblige("a reply is about the object of its request", ok, name + ":says:exit_code", "the reply to %s carries another exit code than that of the process" % name, st)
            go(ctx, b, on_event, on_ret)
