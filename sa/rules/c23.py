"""C23: finished files and processes are released, others are kept."""
from common import *
from rules.handlers import (MANAGER_OPS, PROC_OPS, args_param, explore, handler_bodies, ident, in_tests, is_book, of_field, peel)

IDS = {"file": "file_ids", "proc": "proc_ids"}
HELD = ("LocalFile", "LocalProc", "TtlValue<u32>")
GIVES_UP = {"remove", "remove_entry", "take", "retain", "clear", "drain", "extract_if", "drain_filter", "into_iter", "into_values", "into_keys", "replace_entry", "pop_first", "pop_last"}
TAKES = {"take", "replace", "swap", "forget"}
ALLOWED = ("close_file", "remove_file", "kill_proc")
EVICT = ("evict_files", "evict_procs")


def check(ctx):
    ctx.explanation = ("The three operations that finish a file or process are followed to each of their ends: after a success the file or process and its bookkeeping must both be "
                       "gone, and after a failure of the file operation neither. Every place in the crate that can take something out of the maps of open files, running processes "
                       "or their bookkeeping is found by the types it works on, and everything that leads to it must go through those operations or the cleanup.")
    ctx.rules = ["after a successful close or removal the file is no longer among the open files, and its id no longer in the bookkeeping",
                 "after a successful kill the process is no longer among the processes, and its id no longer in the bookkeeping",
                 "after a failed file operation the file is open and its bookkeeping kept", "a file is taken from the open files exactly if closing it succeeds",
                 "nothing else takes a file, a process or its bookkeeping away"]
    n = {"ok": 0, "err": 0}
    for kind, name in (("file", "close_file"), ("file", "remove_file"), ("proc", "kill_proc")):
        for b in handler_bodies(ctx, name):
            finish(ctx, n, kind, name, b)
    ctx.count("successful ends", n["ok"], 3)
    ctx.count("failing ends", n["err"], 3)
    check_manager(ctx)
    check_sites(ctx)


def unknown(st, i):
    """was the id found not to stand for anything?"""
    for t, r in st.ref.items():
        if t.k in ("call", "pure") and tail(t) in ("get", "get_mut", "remove", "contains_key", "take", "remove_entry") and r in (("is", "None"), ("is", False)) and any(peel(a) is i for a in args_of(t)[1:]):
            return True
        if t.k == "op" and t.a[0] in ("Eq", "Ne") and "NotFound" in show(t, -3) and r == ("is", t.a[0] == "Eq"):
            return True
        if tail(t) == "kind" and r == ("is", "NotFound"):
            return True
        if tail(t) == "eq" and "NotFound" in show(t, -3) and r == ("is", True):
            return True
    return False


def finish(ctx, n, kind, name, b):
    aid = mk("proj", args_param(b), ".id")
    book = IDS[kind]

    def own(i):
        """the id of the request, or of the file found under it"""
        return i is aid or i.k == "proj" and i.a[1] == ".id" and contains(i, lambda v: v.k in ("call", "pure") and tail(v) in ("get", "get_mut") and any(peel(a) is aid for a in args_of(v)[1:]))

    def on_ret(eng, st, hist, val):
        booked = held = None
        closed = gone = did = None
        for e in hist:
            if e.kind != "call" or not e.terms:
                continue
            t0 = e.terms[0]
            if of_field(t0, book) and is_std(e) and len(e.terms) > 1:
                if e.name in ("remove", "take", "remove_entry"):
                    if own(ident(e.terms[1])):
                        booked = "removed"
                    else:
                        eng.oblige("only the entry of the request is removed", False, name + ":another", "%s removes the bookkeeping of another id" % name, st, e.span)
                elif own(ident(e.terms[1])):
                    booked = "kept"
            elif of_field(t0, *[x for x in IDS.values() if x != book]) and is_std(e):
                eng.oblige("only the bookkeeping of the kind is changed", False, name + ":kind", "%s changes the bookkeeping of the other kind" % name, st, e.span)
            if kind == "file":
                if e.name == "close_file" and path_match(e.self_adt, "FileSystemManager"):
                    closed = e
                if of_field(t0, "files") and is_std(e) and e.name in ("remove", "remove_entry"):
                    gone = e
                if e.name == "remove" and path_match(e.self_adt, "LocalFile"):
                    did = e
            else:
                if of_field(t0, "procs") and is_std(e) and e.name in ("remove", "remove_entry"):
                    gone, held = e, None
                if of_field(t0, "procs") and is_std(e) and e.name == "insert":
                    held = e
        r = outcome(eng, st, val)
        if r == "Ok":
            n["ok"] += 1
            if kind == "file":
                ok = gone is not None and own(ident(gone.terms[1])) or closed is not None and (st.ref.get(closed.res) == ("is", "Ok") or did is not None and current(closed, did))
                mine = closed is None or own(handle_id(closed))
                eng.oblige("a finished file is no longer open", ok and mine, name + ":open", "%s succeeds while the file stays among the open files" % name, st)
                if name == "remove_file":
                    eng.oblige("removal removes the file", did is not None and st.ref.get(did.res) == ("is", "Ok"), name + ":op", "%s succeeds although the file was not removed" % name, st)
            else:
                ok = gone is not None and own(ident(gone.terms[1])) and st.ref.get(gone.res) != ("is", "None") and held is None
                eng.oblige("a killed process is no longer held", ok, name + ":held", "%s succeeds while the process stays among the running ones, or for another one" % name, st)
            eng.oblige("the bookkeeping of what is finished is removed", booked == "removed", name + ":book", "%s succeeds but keeps the bookkeeping of the id" % name, st)
        elif r == "Err":
            n["err"] += 1
            if kind == "file":
                lost = gone is not None and st.ref.get(gone.res) != ("is", "None") or closed is not None and (name != "close_file" or st.ref.get(closed.res) != ("is", "Err"))
                if did is not None and st.ref.get(did.res) == ("is", "Ok"):
                    # the file itself is gone already
                    return
                eng.oblige("a file stays open if the operation fails", not lost, name + ":lost", "%s fails and yet closes the file" % name, st)
                eng.oblige("its bookkeeping is kept", booked != "removed" or unknown(st, aid), name + ":forgotten", "%s fails but forgets the bookkeeping of the file" % name, st)
            else:
                still = gone is None or held is not None
                eng.oblige("its bookkeeping is kept", booked != "removed" or not still or unknown(st, aid), name + ":forgotten", "%s fails but forgets the bookkeeping of the process" % name, st)
        else:
            eng.oblige("an end is a success or a failure", False, name + ":end", "whether %s succeeds cannot be told" % name, st)
    explore(ctx, b, on_ret=on_ret)


def is_std(e):
    return any(x in e.path for x in ("Hash", "BTree", "Entry"))


def outcome(eng, st, val):
    v = eng.term(st, val) if hasattr(eng, "term") else val
    for _ in range(20):
        if v.k == "agg":
            x = v.a[1] if isinstance(v.a[1], str) else None
            return x if x in ("Ok", "Err") else None
        r = st.ref.get(v)
        if r and r[0] == "is" and r[1] in ("Ok", "Err"):
            return r[1]
        if v.k in ("call", "pure") and tail(v) in ("map", "map_err", "and_then", "from", "into") and args_of(v):
            v = args_of(v)[0]
            continue
        return None


def handle_id(e):
    v = peel(e.terms[1])
    d = dict(v.a[2]) if v.k == "agg" else {}
    return peel(d["id"]) if "id" in d else mk("proj", v, ".id")


def current(closed, did):
    """is the file closed under the signature it has after it was removed?"""
    v = peel(closed.terms[1])
    d = dict(v.a[2]) if v.k == "agg" else {}
    sig = peel(d["sig"]) if "sig" in d else v
    return contains(sig, lambda x: x.k == "mut" and did.name in str(x.a[0]))


# ---------------------------------------------------------------- the manager
def check_manager(ctx):
    n = 0
    for b in ctx.anchor([x for x in ctx.f.fns("close_file", self_adt="FileSystemManager") if not in_tests(x)], "FileSystemManager::close_file"):
        p = param(b.locals[2][1] or "handle")
        hid = mk("proj", p, ".id")

        def on_ret(eng, st, hist, val):
            gone = back = None
            for e in hist:
                if e.kind == "call" and is_std(e) and e.terms and of_field(e.terms[0], "files"):
                    if e.name in ("remove", "remove_entry", "take"):
                        gone, back = e, None
                    elif e.name in ("insert", "insert_entry", "or_insert"):
                        back = e
            took = gone is not None and back is None and st.ref.get(gone.res) != ("is", "None")
            r = outcome(eng, st, val)
            if r == "Ok":
                eng.oblige("a closed file is taken from the open files", took and contains(mk("t", *gone.terms), lambda x: x is hid), "manager:open", "FileSystemManager::close_file succeeds while the file stays open", st)
            elif r == "Err":
                eng.oblige("a file that could not be closed stays open", not took, "manager:lost", "FileSystemManager::close_file fails and yet closes the file", st)
            else:
                eng.oblige("an end is a success or a failure", False, "manager:end", "whether FileSystemManager::close_file succeeds cannot be told", st)
        r = Trace(want=lambda c: not c.local, on_ret=on_ret, wantbranch=lambda t: False)
        r.keep_all_refinements = True
        ctx.run(r, b, what="FileSystemManager::close_file")
        n += 1
    ctx.count("closing functions", n, 1)


# ---------------------------------------------------------------- everything else
def holds(cj):
    """what a call takes things away from: files, procs, their bookkeeping"""
    a = " ".join(cj.get("args") or [])
    adt = cj.get("self_adt", "")
    if not any(x in adt for x in ("HashMap", "HashSet", "BTreeMap", "BTreeSet", "OccupiedEntry")):
        return None
    first = a.split(" std::hash")[0]
    for h in HELD:
        if re.search(r"\b%s(?!\w)" % h, first):
            return h
    return None


def check_sites(ctx):
    f = ctx.f
    up = callers(f)
    n = 0
    ok = {}
    for b in f.local_bodies(derived=True):
        p = parent_fn(f, b) or b
        if "::tests::" in b.path:
            continue
        for cj in calls_of(b):
            h = None
            if cj["name"] in GIVES_UP:
                h = holds(cj)
            elif cj["name"] in TAKES and cj["fn"].startswith(("std::mem::", "core::mem::")):
                a = " ".join(cj.get("args") or [])
                if re.search(r"Hash(Map|Set)<.*\b(%s)|BTree(Map|Set)<.*\b(%s)|FileSystemManager" % ("|".join(HELD), "|".join(HELD)), a):
                    h = "all"
            if h is None or h == "TtlValue<u32>" and not p.path.startswith("core::server"):
                # the bookkeeping is private to the server
                continue
            n += 1
            what = {"LocalFile": "files", "LocalProc": "processes", "TtlValue<u32>": "bookkeeping"}.get(h, "files or processes")
            if h == "all" or cj["name"] in ("clear", "drain", "into_iter", "into_values", "into_keys") or cj["name"] == "retain" and h != "TtlValue<u32>":
                ctx.violation("mass:%s" % owner_path(f, b), "%s takes away %s wholesale" % (owner_path(f, b), what), cj.get("span"))
                continue
            bad = astray(f, up, p, ok)
            ctx.oblige("files, processes and bookkeeping are only taken away by closing, removing, killing and cleanup", bad is None, "site:%s" % owner_path(f, b),
                       "%s takes away %s and is reached by %s without closing, removing, killing or cleanup" % (owner_path(f, b), what, bad), cj.get("span"))
    ctx.count("places that take something away", n, 3)


def allowed(p):
    return p.name in ALLOWED and "::handler::" in p.path or p.name in EVICT


def astray(f, up, p, ok):
    """a function that reaches p, from the outside, without going through what may take things away"""
    seen, todo = set(), [p]
    while todo:
        x = todo.pop()
        if x is None or x.id in seen or allowed(x):
            continue
        seen.add(x.id)
        cs = [f.body(c) for c in up.get(x.id, ()) if c != x.id]
        if not cs:
            # never called: part of the public face only
            if x is p and (x.self_adt or "").endswith(("ServerState", "FileSystemManager")):
                continue
            return x.path
        todo += cs
    return None
