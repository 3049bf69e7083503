"""The operations a server carries out: what they do with files, processes and their bookkeeping."""
from common import *

FILE_HANDLERS = ("open_file", "close_file", "rename_file", "remove_file", "read_file", "write_file")
PROC_HANDLERS = ("exec_proc", "write_proc_stdin", "read_proc_stdout", "read_proc_stderr", "read_proc_status", "kill_proc")
FILE_OPS = ("rename", "remove", "read_all", "write_all")
MANAGER_OPS = ("open_file", "close_file", "rename_file", "remove_file", "create_dir", "rename_dir", "remove_dir", "dir_entries")
PROC_OPS = ("write_stdin", "read_stdout", "read_stderr", "exit_status", "kill", "kill_and_wait")
SAME = {"clone", "cloned", "to_owned", "copied", "borrow", "as_ref", "from", "into", "deref", "borrow_mut", "as_mut", "deref_mut", "to_string", "as_str", "as_slice", "to_vec", "as_path"}
BOOKS = {"insert", "replace", "remove", "take", "retain", "clear", "drain", "get_or_insert", "remove_entry", "extend"}


def peel(v):
    while True:
        if v.k in ("call", "pure") and tail(v) in SAME and args_of(v):
            v = args_of(v)[0]
        elif v.k == "op" and v.a[0].startswith("Cast") and len(v.a) > 1:
            v = v.a[1]
        else:
            return v


def in_tests(b):
    return "::tests::" in b.path


def handler_bodies(ctx, name):
    return ctx.anchor([b for b in ctx.f.fns(name) if "::handler::" in b.path and not in_tests(b)], "handler::" + name)


def is_op(c):
    return c.local and (c.name in FILE_OPS and path_match(c.self_adt, "LocalFile") or c.name in MANAGER_OPS and path_match(c.self_adt, "FileSystemManager")
                        or c.name in PROC_OPS and path_match(c.self_adt, "LocalProc"))


def of_field(t, *names):
    return contains(t, lambda x: x.k == "proj" and x.a[1][1:] in names)


def is_book(c):
    """a call that may change the bookkeeping (or another map: the terms tell)"""
    return not c.local and c.name in BOOKS and ("HashSet" in c.path or "HashMap" in c.path or "BTree" in c.path or "Entry" in c.path)


def args_param(b):
    return param(b.locals[2][1] or "args")


def ident(v):
    """the id a set entry stands for"""
    v = peel(v)
    if v.k == "agg":
        d = dict(v.a[2])
        if "value" in d:
            return peel(d["value"])
    return v


def ttl_of(v):
    v = peel(v)
    return peel(dict(v.a[2]).get("ttl", v)) if v.k == "agg" else None


def explore(ctx, b, on_event=None, on_ret=None, want=None, opaque=None, what=None, writes=None, branches=None):
    w = want or (lambda c: False)
    o = opaque or (lambda c: False)
    r = Trace(want=lambda c: is_op(c) or is_book(c) or w(c), on_event=on_event, on_ret=on_ret, opaque=lambda c: is_op(c) or o(c), wantbranch=branches or (lambda t: False), writes=writes)
    r.keep_all_refinements = True
    r.max_hist = 60
    r.relevant_body = lambda x: x.file().startswith(("src/core/server/state.rs", "src/core/server/action/handler", "src/utils/ttl")) and not x.derived
    return ctx.run(r, ctx.f.coroutine_of(b) or b, what=what or "handler::" + b.name)
