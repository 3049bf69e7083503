"""C14: each typed ask sends its request and accepts only its reply."""
from absint import C
from common import *

# operation -> request kind, reply kind, request field -> where it comes from (argument number and field, or a constant), keeps the signature
FILE = {"id": "1.id", "sig": "1.sig"}
PROC = {"id": "1.id"}
PATH = {"path": "1"}
EXEC = {"command": "1", "args": "2"}
OPS = {
    "ask_heartbeat": ("Heartbeat", "Heartbeat", {}, 0),
    "ask_version": ("Version", "Version", {}, 0),
    "ask_capabilities": ("Capabilities", "Capabilities", {}, 0),
    "ask_create_dir": ("CreateDir", "DirCreated", {"path": "1", "include_components": "2"}, 0),
    "ask_rename_dir": ("RenameDir", "DirRenamed", {"from": "1", "to": "2"}, 0),
    "ask_remove_dir": ("RemoveDir", "DirRemoved", {"path": "1", "non_empty": "2"}, 0),
    "ask_list_root_dir_contents": ("ListDirContents", "DirContentsList", {"path": "."}, 0),
    "ask_list_dir_contents": ("ListDirContents", "DirContentsList", PATH, 0),
    "ask_open_file": ("OpenFile", "FileOpened", {"path": "1", "create_if_missing": True, "write_access": True, "read_access": True}, 0),
    "ask_open_file_with_options": ("OpenFile", "FileOpened", {"path": "1", "create_if_missing": "2", "write_access": "3", "read_access": "4"}, 0),
    "ask_close_file": ("CloseFile", "FileClosed", FILE, 0),
    "ask_rename_file": ("RenameFile", "FileRenamed", dict(FILE, to="2"), 1),
    "ask_rename_unopened_file": ("RenameUnopenedFile", "UnopenedFileRenamed", {"from": "1", "to": "2"}, 0),
    "ask_remove_file": ("RemoveFile", "FileRemoved", FILE, 1),
    "ask_remove_unopened_file": ("RemoveUnopenedFile", "UnopenedFileRemoved", PATH, 0),
    "ask_read_file": ("ReadFile", "FileContents", FILE, 0),
    "ask_write_file": ("WriteFile", "FileWritten", dict(FILE, contents="2"), 1),
    "ask_exec_proc": ("ExecProc", "ProcStarted", dict(EXEC, stdin=True, stdout=True, stderr=True, current_dir=None), 0),
    "ask_exec_proc_with_current_dir": ("ExecProc", "ProcStarted", dict(EXEC, stdin=True, stdout=True, stderr=True, current_dir="some 3"), 0),
    "ask_exec_proc_with_options": ("ExecProc", "ProcStarted", dict(EXEC, stdin="3", stdout="4", stderr="5", current_dir="6"), 0),
    "ask_write_proc_stdin": ("WriteProcStdin", "ProcStdinWritten", dict(PROC, input="2"), 0),
    "ask_read_proc_stdout": ("ReadProcStdout", "ProcStdoutContents", PROC, 0),
    "ask_read_proc_stderr": ("ReadProcStderr", "ProcStderrContents", PROC, 0),
    "ask_read_proc_status": ("ReadProcStatus", "ProcStatus", PROC, 0),
    "ask_proc_kill": ("KillProc", "ProcKilled", PROC, 0),
    "ask_internal_debug": ("InternalDebug", "InternalDebug", {}, 0),
}
SAME = {"clone", "cloned", "to_owned", "copied", "borrow", "as_ref", "to_vec", "from", "into", "to_string", "deref", "as_slice", "collect", "iter", "into_iter", "as_str",
        "into_vec", "into_boxed_slice", "from_iter", "extend_from_slice"}


def peel(v):
    while v.k in ("call", "pure") and tail(v) in SAME and args_of(v):
        v = args_of(v)[0]
    return v


def is_ask(c):
    return c.local and c.name == "ask" and path_match(c.self_adt, "ConnectedClient")


def check(ctx):
    ctx.explanation = ("Every path of each typed client operation is followed with the generic ask as a single step: the request it is given must be of the operation's own "
                       "kind with each field from the operation's own argument; success needs a reply known to be of the kind that belongs to the request and "
                       "returns its content; what any other outcome turns into, and when the caller's file handle is changed, is compared with the statement.")
    ctx.rules = ["a typed operation asks exactly once, with its own kind of request", "each field of the request is the operation's own argument",
                 "success is only reported on the reply kind that belongs to the request, with its content",
                 "a failed ask is handed on as it is; a remote i/o error stays one; a changed file signature is reported as such; anything else is an invalid response with the reply",
                 "a file handle takes the signature of the reply, on success and only then", "handles made from replies name the same file or process"]
    n = {"asked": 0, "ok": 0, "err": 0}
    for name, (req, rep, fields, sig) in OPS.items():
        for b in ctx.anchor(ctx.f.fns(name, self_adt="ConnectedClient"), "ConnectedClient::" + name):
            operation(ctx, n, name, b, req, rep, fields, sig)
    ctx.count("requests asked", n["asked"], 26)
    ctx.count("successful ends", n["ok"], 26)
    ctx.count("failing ends", n["err"], 52)
    check_handles(ctx)


def operation(ctx, n, name, b, req, rep, fields, sig):
    names = [b.locals[i][1] or "arg%d" % i for i in range(1, b.argc + 1)]
    fileop = "File" in req or "Dir" in req
    n0 = dict(n)

    def source(s):
        if not isinstance(s, str) or s == ".":
            return s
        p = s.split(".")
        v = param(names[int(p[0])])
        return mk("proj", v, "." + p[1]) if len(p) > 1 else v

    def matches(v, s):
        if s is None:
            return v.k == "agg" and v.a[1] == "None"
        if isinstance(s, str) and s.startswith("some "):
            return v.k == "agg" and v.a[1] == "Some" and matches(dict(v.a[2])["0"], s[5:])
        x = source(s)
        v = peel(v)
        if isinstance(x, (bool, int)) or x == ".":
            return v is C(x)
        return v is x

    def asks(hist):
        return [e for e in hist if e.kind == "call" and e.name == "ask"]

    def on_event(eng, st, hist, ev):
        if ev.kind != "call" or ev.name != "ask":
            return
        n["asked"] += 1
        if asks(hist):
            eng.report(name + ":twice", "%s asks more than once" % name, st, ev.span)
        r = ev.terms[1]
        if r.k != "agg" or r.a[1] != req:
            eng.report(name + ":kind", "%s asks for %s, not for %s" % (name, r.a[1] if r.k == "agg" else show(r, 3), req), st, ev.span)
            return
        args = dict(r.a[2]).get("0")
        for f, s in fields.items():
            v = dict(args.a[2]).get(f) if args is not None and args.k == "agg" else mk("proj", args, "." + f) if args is not None else None
            if v is None or not matches(v, s):
                eng.report("%s:%s" % (name, f), "%s fills %s with %s, not with its own argument" % (name, f, show(v, 3) if v is not None else "?"), st, ev.span)

    def sigs(st, hist):
        """what was stored in the caller's handle, last per field"""
        out = {}
        for e in hist:
            if e.kind == "wr":
                out[tuple(e.path)] = e.terms[0]
        return out

    def on_ret(eng, st, hist, val):
        a = asks(hist)
        good = val.k == "agg" and val.a[1] == "Ok"
        bad = val.k == "agg" and val.a[1] == "Err" or st.ref.get(val) == ("is", "Err")
        if not a:
            if not bad:
                eng.report(name + ":unasked", "%s can succeed without asking" % name, st)
            return
        res = a[-1].res
        reply = mk("proj", mk("proj", res, "@Ok"), ".0")
        failed = st.ref.get(res) == ("is", "Err")
        kind = st.ref.get(reply)
        own = not failed and kind == ("is", rep)
        content = mk("proj", mk("proj", reply, "@" + rep), ".0")
        wr = sigs(st, hist)
        if not good and not bad:
            eng.report(name + ":end", "%s returns something that cannot be told" % name, st)
        elif good:
            n["ok"] += 1
            if not own:
                eng.report(name + ":accepts", "%s can succeed with a reply that is not %s" % (name, rep), st)
            v = dict(val.a[2])["0"]
            if rep != "Heartbeat" and peel(v) is not content and not rebuilt(v, content):
                eng.report(name + ":returns", "%s returns something other than the content of the reply" % name, st)
            if sig:
                x = wr.get((".sig",))
                if x is None or peel(x) is not mk("proj", content, ".sig"):
                    eng.report(name + ":sig", "%s can succeed without keeping the new signature in the file handle" % name, st)
            extra = [p for p in wr if not (sig and p == (".sig",))]
            if extra:
                eng.report(name + ":handle", "%s changes the caller's handle beyond the signature" % name, st)
        else:
            n["err"] += 1
            if wr:
                eng.report(name + ":handle", "%s changes the caller's handle though it fails" % name, st)
            if own:
                eng.report(name + ":refuses", "%s fails though the reply is the one that belongs to its request" % name, st)
            v = dict(val.a[2])["0"] if val.k == "agg" else mk("proj", mk("proj", val, "@Err"), ".0")
            plain = v
            if v.k == "agg" and v.a[1] == "GeneralAskFailed":
                plain = dict(v.a[2])["0"]
            if failed:
                if peel(plain) is not mk("proj", mk("proj", res, "@Err"), ".0"):
                    eng.report(name + ":failure", "%s does not hand on why its ask failed" % name, st)
                return
            e = mk("proj", mk("proj", reply, "@Error"), ".0")
            ekind = st.ref.get(e) if kind == ("is", "Error") else None
            typed = v.k == "agg" and v.a[1] in ("IoError", "FileSignatureChanged")
            if typed:
                want_ = "Io" if v.a[1] == "IoError" else "FileSigChanged"
                if ekind != ("is", want_):
                    eng.report(name + ":error", "%s reports %s for a reply that is not that error" % (name, v.a[1]), st)
                    return
                src = mk("proj", mk("proj", e, "@" + want_), ".0")
                if want_ == "Io" and not contains(v, lambda x: x is src) \
                        or want_ != "Io" and peel(dict(v.a[2]).get("id", v)) is not mk("proj", src, ".id"):
                    eng.report(name + ":error", "%s reports %s without what the reply says of it" % (name, v.a[1]), st)
                return
            if not (plain.k == "agg" and plain.a[1] == "InvalidResponse" and same_value(dict(plain.a[2])["reply"], reply, st, peel)):
                eng.report(name + ":invalid", "%s does not report an unexpected reply as an invalid response with that reply" % name, st)
                return
            if "AskError" in (v.a[0] if v is not plain else ""):
                # operations with errors of their own must have looked for them
                looked = kind is not None and (kind[0] == "is" and kind[1] != "Error" or kind[0] == "not" and "Error" in kind[1])
                if not looked:
                    missing = [x for x in (("Io", "FileSigChanged") if "File" in v.a[0] else ("Io",))
                               if not (ekind is not None and (ekind[0] == "is" and ekind[1] != x or ekind[0] == "not" and x in ekind[1]))]
                    if missing:
                        eng.report(name + ":untyped", "%s reports a remote %s error as an invalid response" % (name, "/".join(missing)), st)

    def rebuilt(v, content):
        return v.k == "agg" and v.a[2] and all(peel(x) is mk("proj", content, "." + f) for f, x in v.a[2])

    c = ctx.f.coroutine_of(b) or b
    handles = {param(x) for x in names[1:]}
    r = Trace(want=is_ask, on_event=on_event, on_ret=on_ret, opaque=is_ask, relevant=is_ask, wantbranch=lambda x: False,
              writes=lambda root, path, val: root[0] == "D" and root[1] in handles)
    r.relevant_body = lambda bb: bb.file().startswith("src/core/client/") and bb.name != "fmt" and bb.kind != "closure"
    r.keep_all_refinements = True
    ctx.run(r, c, what=name)
    ctx.oblige("a typed operation asks", n["asked"] > n0["asked"] and n["ok"] > n0["ok"] or ctx.inconclusive, name + ":asks", "%s never asks or never succeeds" % name)


HANDLES = [("RemoteFile", "FileOpenedArgs", ("id", "sig", "path")), ("RemoteProc", "ProcStartedArgs", ("id",)),
           ("RemoteProcStatus", "ProcStatusArgs", ("id", "is_alive", "exit_code"))]


def check_handles(ctx):
    """what a client knows a remote file or process by is what the reply said"""
    n = 0
    for b in ctx.f.local_bodies():
        if b.name != "from" or not b.trait.endswith("From") or b.derived:
            continue
        for adt, arg, fields in HANDLES:
            if not path_match(b.self_adt, adt) or b.argc != 1 or not b.locals[1][0].endswith(arg):
                continue
            n += 1
            x = mk("param", "the reply")

            def on_ret(eng, st, hist, val, adt=adt, fields=fields):
                for f in fields:
                    v = dict(val.a[2]).get(f) if val.k == "agg" else None
                    if v is None or peel(v) is not mk("proj", x, "." + f):
                        eng.report("%s:%s" % (adt, f), "the %s of a %s is not the one in the reply it is made from" % (f, adt), st)
            ctx.run(Trace(want=lambda c: False, on_ret=on_ret), b, {1: x}, what=adt)
    ctx.count("handles made from replies", n, 3)
