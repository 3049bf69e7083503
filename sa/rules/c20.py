"""C20: path operations never disturb open files."""
from common import *
from rules.dispatch import apply_fn

DESTROYS = {"rename", "remove_file", "remove_dir", "remove_dir_all", "write", "copy"}
SAME = {"clone", "cloned", "to_owned", "copied", "borrow", "as_ref", "from", "into", "deref", "as_path", "to_path_buf", "as_mut", "deref_mut", "as_os_str", "into_path_buf", "new"}
WALK = {"into_iter", "values", "iter", "values_mut", "iter_mut", "by_ref", "next"}
FS = re.compile(r"^(tokio|std|async_std|futures)::.*\bfs\b|^fs::")
FILE = mk("call", "the next open file", "c20", ())


def peel(v):
    while v.k in ("call", "pure") and tail(v) in SAME and args_of(v):
        v = args_of(v)[0]
    return v


def destroys(c):
    return not c.local and c.name in DESTROYS and FS.match(c.path) is not None and not c.self_adt


def is_files(v):
    return v.k == "proj" and v.a[1] == ".files"


def every_file(v):
    """an iteration over all open files, leaving none out"""
    while v.k in ("call", "pure") and tail(v) in WALK and args_of(v):
        v = args_of(v)[0]
    while v.k == "mut":
        v = v.a[1][0] if isinstance(v.a[1], tuple) and v.a[1] else v.a[0]
        if not isinstance(v, V):
            return False
    return is_files(v) or v.k in ("call", "pure") and tail(v) in WALK and every_file(args_of(v)[0])


def path_of_elem(v, elem):
    v = peel(v)
    return v.k == "proj" and v.a[1] == ".path" and contains(v, lambda x: x is elem)


class Walk(Trace):
    """remembers, for every open file an iteration passed, the paths it was found not to be under"""
    max_hist = 60

    def event(self, eng, st, call):
        c = call.callee
        nxt = c is not None and c.name == "next" and call.terms and contains(call.terms[0], is_files)
        ov = super().event(eng, st, call)
        if nxt:
            d = eng.dropped
            if d.get(FILE) == ("is", "Some"):
                elem = FILE
                cleared = frozenset(peel(args_of(t)[1]) for t, r in d.items() if t.k in ("call", "pure") and tail(t) == "starts_with" and r == ("is", False)
                                    and path_of_elem(args_of(t)[0], elem))
                st.auto = tuple(e for e in st.auto if not (e.kind == "mark" and e.terms[0] == cleared)) + (Ev("mark", "", "", "", "", "", (cleared,), None, "", ()),)
        return ov

    @staticmethod
    def alias(eng, st, call):
        c = call.callee
        if c is not None and c.name == "next" and call.terms and every_file(call.terms[0]):
            return FILE


def check(ctx):
    ctx.explanation = ("Every operation of the file system manager is followed to the calls that rename or remove something on disk. On every path to one of them, the very path "
                       "it is given must be the resolved form of the argument, and each of the open files must have been found not to lie under it. "
                       "The path kept for an open file must be a resolved one wherever it is set.")
    ctx.rules = ["a rename or removal on disk comes after every open file was found not to be under the path it starts from", "the path checked and acted upon is the resolved form of the argument",
                 "the path of an open file is stored resolved, after opening and after renaming", "nothing outside the file system manager renames or removes files"]
    check_manager(ctx)
    check_paths(ctx)
    check_bypass(ctx)


def in_tests(b):
    return "::tests::" in b.path


def cleared(ctx, eng, st, hist, p):
    """is every open file known not to be under p?"""
    if st.ref.get(FILE) == ("is", "None") and any(e.kind == "call" and e.name == "next" for e in hist):
        if all(p in e.terms[0] for e in hist if e.kind == "mark"):
            return True
    for t, r in st.ref.items():
        if t.k not in ("call", "pure") or r[0] != "is":
            continue
        nm = tail(t)
        if nm in ("any", "all", "find", "position", "find_map") and len(args_of(t)) == 2:
            if not (nm == "any" and r[1] is False or nm == "all" and r[1] is True or r[1] == "None"):
                continue
            if excludes(ctx, args_of(t)[0], args_of(t)[1], p, nm):
                return True
        if nm in ("next", "last", "count") and args_of(t) and (r[1] == "None" or r[1] == 0):
            f = args_of(t)[0]
            while f.k in ("call", "pure") and tail(f) in ("into_iter", "peekable", "by_ref", "map", "cloned", "copied"):
                f = args_of(f)[0]
            if tail(f) in ("filter", "filter_map") and excludes(ctx, args_of(f)[0], args_of(f)[1], p, "find"):
                return True
    return False


def local_fs(b):
    return "/server/fs/" in b.file()


def excludes(ctx, over, clo, p, nm):
    """does the outcome 'no' (for all: 'yes') of the test mean that no open file is under p?"""
    stages = []
    while over.k in ("call", "pure") and tail(over) == "map" and len(args_of(over)) == 2:
        stages.append(args_of(over)[1])
        over = args_of(over)[0]
    if not every_file(over):
        return False
    x = param("elem")
    for s in reversed(stages):
        r = apply_fn(ctx, s, x, relevant=local_fs)
        if not r or len(r) != 1:
            return False
        x = r[0][0]
    rets = apply_fn(ctx, clo, x, relevant=local_fs)
    if not rets:
        return False
    elem = param("elem")
    no = nm == "all"
    for v, ref, h in rets:
        neg = False
        while v.k == "op" and v.a[0] == "Not":
            neg, v = not neg, v.a[1]
        if v.k in ("call", "pure") and tail(v) == "starts_with":
            if not (path_of_elem(args_of(v)[0], elem) and peel(args_of(v)[1]) is p and neg == no):
                return False
            continue
        hit = bool(v.a[0]) is not no if v.k == "c" else v.k == "agg" and v.a[1] == "Some"
        if hit:
            continue
        if not any(t.k in ("call", "pure") and tail(t) == "starts_with" and r == ("is", False) and path_of_elem(args_of(t)[0], elem) and peel(args_of(t)[1]) is p for t, r in ref.items()):
            return False
    return True


def resolved(st, hist, p):
    """is p the resolved form of a path, or the path itself where it cannot be resolved?"""
    if p.k == "proj":
        x = p.a[0]
        if x.k == "proj" and x.a[1] == "@Ok" and tail(x.a[0]) == "canonicalize":
            return True
    for t, r in st.ref.items():
        if tail(t) == "canonicalize" and r == ("is", "Err") and peel(args_of(t)[0]) is p:
            return True
    if p.k in ("call", "pure") and tail(p) in ("unwrap_or_else", "unwrap_or", "or_else"):
        return contains(p, lambda x: tail(x) == "canonicalize")
    return False


def check_manager(ctx):
    ms = [b for b in ctx.f.local_bodies() if path_match(b.self_adt, "FileSystemManager") and not in_tests(b) and b.argc and b.locals[1][1] == "self" and entry_of_file(ctx.f, b)]
    need = {"rename_dir", "remove_dir", "rename_file", "remove_file"}
    ctx.anchor(need <= {b.name for b in ms}, "FileSystemManager::{%s}" % ",".join(sorted(need)))
    n = {"effects": 0}
    ok_of = {}
    for b in ms:
        def on_event(eng, st, hist, ev, b=b):
            if ev.kind != "call" or not (ev.name in DESTROYS and FS.match(ev.path) and not ev.self_adt):
                return
            n["effects"] += 1
            ok_of[b.name] = ok_of.get(b.name, 0) + 1
            p = peel(ev.terms[0])
            eng.oblige("open files are looked at first", cleared(ctx, eng, st, hist, p), "%s:%s" % (b.name, ev.name), "FileSystemManager::%s reaches %s without every open file having been "
                       "found outside of that path" % (b.name, ev.short), st, ev.span)
            eng.oblige("the resolved path is used", resolved(st, hist, p), "%s:%s:path" % (b.name, ev.name), "FileSystemManager::%s hands %s a path that was not resolved" % (
                b.name, ev.short), st, ev.span)
            root = peel(p)
            src = [x for x in subterms(root) if x.k == "param"]
            if b.argc > 1 and mk("param", b.locals[2][1]) not in src:
                eng.report("%s:%s:other" % (b.name, ev.name), "FileSystemManager::%s hands %s another path than the one it was given" % (b.name, ev.short), st, ev.span)
        r = Walk(want=lambda c: destroys(c) or not c.local and c.name == "next", on_event=on_event, wantbranch=lambda t: False)
        r.relevant_body = lambda x: "/server/fs/" in x.file()
        r.keep_all_refinements = True
        ctx.run(r, ctx.f.coroutine_of(b) or b, what="FileSystemManager::" + b.name)
    ctx.count("renames and removals by path", n["effects"], 5)
    for x in sorted(need):
        ctx.count("effects of " + x, ok_of.get(x, 0), 1)


def check_paths(ctx):
    n = {"opened": 0, "moved": 0}
    for b in ctx.anchor(ctx.f.fns("open", self_adt="LocalFile"), "LocalFile::open"):
        opened = mk("param", b.locals[1][1] or "path")

        def on_ret(eng, st, hist, val):
            if not (val.k == "agg" and val.a[1] == "Ok"):
                return
            f = dict(val.a[2])["0"]
            p = dict(f.a[2]).get("path") if f.k == "agg" else None
            n["opened"] += 1
            q = peel(p) if p is not None else None
            ok = q is not None and q.k == "proj" and q.a[0].k == "proj" and q.a[0].a[1] == "@Ok" and tail(q.a[0].a[0]) == "canonicalize" and peel(args_of(q.a[0].a[0])[0]) is opened
            eng.oblige("an opened file keeps its resolved path", ok, "open:path", "a file is opened without its resolved path being kept", st)
        r = Trace(want=lambda c: False, on_ret=on_ret, wantbranch=lambda t: False)
        r.relevant_body = lambda x: x.file().endswith("fs/file.rs")
        ctx.run(r, ctx.f.coroutine_of(b) or b, what="LocalFile::open")
    for b in ctx.anchor(ctx.f.fns("rename", self_adt="LocalFile"), "LocalFile::rename"):
        to = mk("param", b.locals[3][1] or "to")

        def on_ret2(eng, st, hist, val):
            moved = [e for e in hist if e.kind == "call" and e.name == "rename" and st.ref.get(e.res) != ("is", "Err")]
            w = [e for e in hist if e.kind == "wr"]
            if not moved or val.k == "agg" and val.a[1] == "Err" and st.ref.get(moved[-1].res) != ("is", "Ok"):
                return
            n["moved"] += 1
            if not eng.oblige("a renamed file gets its new path", bool(w), "rename:kept", "an open file keeps its old path after having been renamed", st):
                return
            p = peel(w[-1].terms[0])
            can = [e for e in hist if e.kind == "call" and e.name == "canonicalize"]
            late = can and hist.index(can[-1]) > hist.index(moved[-1])
            ok = late and (p.k == "proj" and p.a[0].k == "proj" and p.a[0].a[1] == "@Ok" and p.a[0].a[0] is can[-1].res and peel(can[-1].terms[0]) is to
                           or p is to and st.ref.get(can[-1].res) == ("is", "Err"))
            eng.oblige("a renamed file keeps its resolved path", ok, "rename:path", "an open file that has been renamed does not keep its resolved new path", st)
        r = Trace(want=lambda c: not c.local and FS.match(c.path) is not None, on_ret=on_ret2, wantbranch=lambda t: False,
                  writes=lambda root, path, val: root[0] == "D" and str(path[0] if path else "") == ".path")
        r.relevant_body = lambda x: x.file().endswith("fs/file.rs")
        r.keep_all_refinements = True
        ctx.run(r, ctx.f.coroutine_of(b) or b, what="LocalFile::rename")
    ctx.count("paths kept after opening", n["opened"], 1)
    ctx.count("paths kept after renaming", n["moved"], 1)


def check_bypass(ctx):
    """what renames or removes on disk is only reached through the manager or an open file"""
    cal = callers(ctx.f)
    todo = []
    for b in ctx.f.local_bodies(derived=True):
        if in_tests(b):
            continue
        for cj in calls_of(b):
            if cj["name"] in DESTROYS and FS.match(cj.get("fn", "")) and not cj.get("self_adt") and cj.get("r", cj["id"]) not in ctx.f.raw:
                todo.append((parent_fn(ctx.f, b) or b).id)
    ctx.count("functions that rename or remove on disk", len(set(todo)), 3)
    seen = set()
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        b = ctx.f.body(i)
        if b is None:
            continue
        if path_match(b.self_adt, "FileSystemManager") or path_match(b.self_adt, "LocalFile"):
            continue
        up = cal.get(i, ())
        if "/server/fs/" not in b.file():
            ctx.oblige("no way around the manager", False, "bypass:" + owner_path(ctx.f, b), "%s renames or removes on disk without the file system manager" % owner_path(ctx.f, b), b.span)
            continue
        todo.extend(up)
