"""C29: command-line options and arguments take effect where they belong."""
from common import *
from absint import Engine, UNIT, calls_of, closures_of
from rules import cli
from rules.c30 import peel
from rules.cli import is_launch, setting

PRE = "cli::opts::"
NONE, SOME = (lambda: agg("std::option::Option", "None", [])), (lambda v: agg("std::option::Option", "Some", [("0", v)]))



def OK(v):
    return agg("std::result::Result", "Ok", [("0", v)])


def flag(b):
    from absint import C
    return C(bool(b))


# subcommand -> the requests it makes, in order: (names, {argument: value}); and the reply it reports
def arg(n):
    return "c." + n


OPS = {
    "Version": dict(ops=[(("ask_version",), [])], reply="Version", shows=True),
    "Capabilities": dict(ops=[(("ask_capabilities",), [])], reply="Capabilities", shows=True),
    "ListRootDir": dict(ops=[(("ask_list_root_dir_contents",), [])], reply="DirContentsList", shows=True),
    "ListDir": dict(ops=[(("ask_list_dir_contents",), ["path"])], reply="DirContentsList", shows=True),
    "CreateDir": dict(ops=[(("ask_create_dir",), ["path", "parents"])], reply="DirCreated"),
    "MoveDir": dict(ops=[(("ask_rename_dir",), ["from", "to"])], reply="DirRenamed"),
    "RemoveDir": dict(ops=[(("ask_remove_dir",), ["path", "non_empty"])], reply="DirRemoved"),
    "WriteFile": dict(ops=[(("ask_open_file", "ask_open_file_with_options"), ["path"]), (("ask_write_file",), ["FILE", "contents"])], reply="FileWritten"),
    "ReadFile": dict(ops=[(("ask_open_file", "ask_open_file_with_options"), ["path"]), (("ask_read_file",), ["FILE"])], reply="FileContents", shows=True),
    "MoveFile": dict(ops=[(("ask_rename_unopened_file",), ["from", "to"])], reply="UnopenedFileRenamed"),
    "RemoveFile": dict(ops=[(("ask_remove_unopened_file",), ["path"])], reply="UnopenedFileRemoved"),
    "InternalDebug": dict(ops=[(("ask_internal_debug",), [])], reply="InternalDebug", shows=True),
}
FREE = {"ask_close_file", "ask_heartbeat"}      # requests that change nothing of note and may accompany any other
SERVER = {"cleanup_interval": "cmd.cleanup_interval", "file_ttl": "cmd.untouched_file_ttl", "proc_ttl": "cmd.untouched_proc_ttl", "dead_proc_ttl": "cmd.dead_proc_ttl",
          "buffer": "cmd.opts.internal_buffer_size", "packet_ttl": "cmd.opts.packet_ttl"}
CLIENT = {"buffer": "cmd.opts.internal_buffer_size", "packet_ttl": "cmd.opts.packet_ttl"}
SCHEMA_REPLY = {"Version": "Version", "Capabilities": "Capabilities", "CreateDir": "DirCreated", "RenameDir": "DirRenamed", "RemoveDir": "DirRemoved", "ListDirContents": "DirContentsList",
                "OpenFile": "FileOpened", "CloseFile": "FileClosed", "RenameUnopenedFile": "UnopenedFileRenamed", "RenameFile": "FileRenamed",
                "RemoveUnopenedFile": "UnopenedFileRemoved", "RemoveFile": "FileRemoved", "ReadFile": "FileContents", "WriteFile": "FileWritten", "ExecProc": "ProcStarted",
                "WriteProcStdin": "ProcStdinWritten", "ReadProcStdout": "ProcStdoutContents", "ReadProcStderr": "ProcStderrContents", "KillProc": "ProcKilled",
                "ReadProcStatus": "ProcStatus", "Sequence": "Sequence", "Batch": "Batch", "Forward": "Forward", "Custom": "Custom", "InternalDebug": "InternalDebug"}
SERIAL = {"Json": "json", "Sexpression": "lexpr|sexp"}
SAMEV = {"into_bytes", "as_bytes", "to_string", "as_str", "into_boxed_str", "as_slice", "to_owned", "into_string", "from_utf8_lossy", "into_owned", "to_vec", "must_use", "into_iter", "collect", "iter",
         "cloned", "copied", "map"}


def plain(v, src):
    """is v the option src, handed on as it is?"""
    while True:
        w = peel(v)
        if w is src:
            return True
        if w.k in ("call", "pure") and tail(w) in SAMEV and len(args_of(w)) == 1:
            v = args_of(w)[0]
        elif w.k == "agg" and len(w.a[2]) == 1 and w.a[0] not in ("closure", "coroutine"):
            v = w.a[2][0][1]
        else:
            return False


class Start:
    """the command line run on options of a known shape whose values are symbols"""

    def __init__(self, ctx, side, fix, sub=None):
        self.ctx, self.ok = ctx, True
        f = ctx.f
        self.fields = set()
        fix = dict(fix)
        t = PRE + "types::"
        fix.setdefault("cmd.opts.authentication", agg(t + "Authentication", "None", []))
        fix.setdefault("cmd.opts.encryption", agg(t + "Encryption", "None", []))
        fix.setdefault("cmd.opts.transport", agg(t + "Transport", "Udp", []))
        fix.setdefault("cmd.opts.authentication_key", NONE())
        fix.setdefault("cmd.opts.encryption_key", NONE())
        if side == "Client":
            a = f.adt(PRE + "client::Subcommand")
            ty = next((v[2][0][1] for v in a.variants if v[0] == sub), None) if a else None
            if ty is None:
                self.ok = False
                return
            fix["cmd.command"] = agg(PRE + "client::Subcommand", sub, [("0", self.sym(ty, "c", fix))])
        adt = {"Client": PRE + "client::ClientCommand", "Server": PRE + "server::ServerCommand", "Schema": PRE + "schema::SchemaCommand"}[side]
        if f.adt(adt) is None or f.adt(PRE + "Opts") is None:
            self.ok = False
            return
        cmd = self.sym(adt, "cmd", fix)
        self.opts = agg(PRE + "Opts", "", [("command", agg(PRE + "Command", side, [("0", cmd)]))])

    def sym(self, adt, prefix, fix, d=4):
        a = self.ctx.f.adt(adt)
        out = []
        for x in a.variants[0][2]:
            nm = "%s.%s" % (prefix, x[0])
            self.fields.add(nm)
            sub = self.ctx.f.adt(x[1])
            if nm in fix:
                out.append((x[0], fix[nm]))
            elif d and sub is not None and not sub.is_enum and x[1].startswith("cli::"):
                out.append((x[0], self.sym(x[1], nm, fix, d - 1)))
            else:
                out.append((x[0], param(nm)))
        return agg(adt, "", out)

    def run(self, label, on_event, on_ret=None, want=None, stop=None, trim=None, max_hist=40, max_states=120000, keep=True, br=None, sure=False, spy=None, opaque=None):
        ctx = self.ctx
        got = []
        for b in cli.entry(ctx):
            ctx.run(Trace(want=lambda c: False, on_ret=lambda e, s, h, v: got.append(v)), b, {1: self.opts}, what="cli::run")
        for y in got:
            if y.k != "agg" or y.a[0] != "coroutine":
                continue
            r = Trace(opaque=lambda c: c.local and (is_launch(c) or is_ask(c) or c.name == "wait") or opaque is not None and opaque(c), want=lambda c: c.local and (is_launch(c) or is_ask(c)) or sinkish(c) or want is not None and want(c),
                      on_event=on_event, on_ret=on_ret, wantbranch=br or (lambda t: False), max_states=max_states)
            r.keep_all_refinements = keep
            r.max_hist = max_hist
            r.trim = trim
            r.stop = stop
            r.spy = spy

            def alias(eng, st, call):
                c = call.callee
                if c is None:
                    return None
                if not c.local:
                    # what is asked here does not depend on whether output can be written
                    if sure and c.name in ("to_string", "to_string_pretty") and "serde" in c.path:
                        return OK(call.res)
                    return OK(UNIT) if sure and sinkish(c) and not c.name.startswith(("_", "write_fmt")) else None
                return OK(param("conn")) if is_launch(c) else param("re:" + c.name) if is_ask(c) else None
            r.alias = alias
            r.awaited = lambda eng, st, term, span: None

            def value(eng, st, call):
                c = call.callee
                if c is not None and c.name in ("eq", "ne") and len(call.terms) == 2:
                    a, b = peel(call.terms[0]), peel(call.terms[1])
                    if a.k == b.k == "agg" and a.a[0] == b.a[0] and not a.a[2] and not b.a[2] and a.a[0] not in ("closure", "coroutine"):
                        return flag((a.a[1] == b.a[1]) == (c.name == "eq"))
                return None
            r._value = value
            reach = reaching(ctx, lambda c: c.local and (is_launch(c) or is_ask(c)) or sinkish(c) or want is not None and want(c))
            r.relevant_closure = lambda eng, bid: bid in reach
            r.relevant_body = lambda x: (x.file().startswith(("src/cli/", "src/core/transport/net")) or x.file() in ("src/core/server/mod.rs", "src/core/client/mod.rs")) and not x.derived
            ctx.run(r, ctx.f.body(y.a[1]), {1: y}, what="cli::run " + label)


def reaching(ctx, hit):
    """bodies from which such a call can be reached"""
    eng = Engine(ctx.f, Trace(), next(iter(ctx.f.local_bodies())))
    rel, uses = set(), {}
    for b in ctx.f.local_bodies(derived=True):
        if not b.file().startswith("src/cli/"):
            continue
        u = set(closures_of(b))
        for cj in calls_of(b):
            c = eng.callee(cj)
            if hit(c):
                rel.add(b.id)
            if c.local:
                u.add(c.rid)
        uses[b.id] = u
    while True:
        more = {i for i, u in uses.items() if i not in rel and not rel.isdisjoint(u)}
        if not more:
            return rel
        rel |= more


def is_ask(c):
    return c.local and (c.name == "ask" or c.name.startswith("ask_") or c.name.startswith("tell")) and path_match(c.self_adt, "ConnectedClient")


def sinkish(c):
    if c.self_adt.endswith("OpenOptions"):
        return False        # a setting, not a write
    return not c.local and (c.name in ("_print", "_eprint", "write_all", "write", "write_str", "write_fmt", "flush", "shutdown", "sync_all", "write_all_buf")
                            or c.name == "write" and "fs" in c.path)


def out_of(ev):
    """where a call puts text: ('stdout'|'stderr'|file path, content)"""
    if ev.kind != "call":
        return None
    if ev.name == "_print":
        return "stdout", ev.terms[0]
    if ev.name == "_eprint":
        return "stderr", ev.terms[0]
    if ev.name in ("write_all", "write", "write_str", "write_fmt", "write_all_buf") and len(ev.terms) > 1:
        r = mut_base(ev.terms[0])
        for x in subterms(r):
            if x.k in ("call", "pure") and tail(x) in ("open", "create", "append") and args_of(x) and len(args_of(x)) <= 2:
                return args_of(x)[-1], ev.terms[1]
            if x.k in ("call", "pure") and tail(x) in ("stdout", "stderr"):
                return tail(x), ev.terms[1]
        if ev.name == "write" and "fs" in ev.path:
            return ev.terms[0], ev.terms[1]
    return None


def re(name):
    return param("re:" + name)


def succeeded(st, t):
    return st.ref.get(t) == ("is", "Ok")


def reply_in(v, variant, ask):
    """does the value carry Reply::<variant>(the answer to ask)?"""
    want = mk("proj", mk("proj", re(ask), "@Ok"), ".0")
    for x in subterms(v):
        if x.k == "agg" and path_match(x.a[0], "Reply") and x.a[1] == variant and len(x.a[2]) == 1 and peel(x.a[2][0][1]) is want:
            return True
    return False


def error_in(v):
    return contains(v, lambda x: x.k == "agg" and path_match(x.a[0], "Reply") and x.a[1] == "Error") \
        or contains(v, lambda x: x.k == "proj" and x.a[1] == "@Err")


def loses(ev):
    """does the write replace what was written to the file before?"""
    if ev.name == "write" and "fs" in ev.path and "File" not in ev.self_adt:
        return True
    r = ev.terms[0]
    opts = [x for x in subterms(r) if x.k in ("call", "pure") and tail(x) in ("truncate", "append", "create", "write", "create_new")]
    if any(tail(x) == "append" and len(args_of(x)) == 2 and args_of(x)[1] == flag(True) for x in opts):
        return False
    if any(tail(x) == "truncate" and len(args_of(x)) == 2 and args_of(x)[1] == flag(True) or tail(x) == "create" and len(args_of(x)) == 1 for x in opts):
        return True
    # one that can write, but starts at the beginning
    return any(tail(x) == "write" and len(args_of(x)) == 2 and args_of(x)[1] == flag(True) for x in opts) \
        and not contains(r, lambda x: x.k == "mut" and (tail(x) == "seek" or tail(x).startswith("set_")))


def fmt(name):
    return agg("cli::format::FormatOption", name, [])


def formats(ctx):
    a = ctx.f.adt("cli::format::FormatOption")
    return [v[0] for v in a.variants] if a else []


# ------------------------------------------------------------------ settings
def accepts(v, six, env):
    """value of a boolean over 'is the address IPv6', None if unknown"""
    def ev(t):
        t = peel(t)
        if t.k == "c":
            return bool(t.a[0])
        if t.k in ("call", "pure"):
            nm = tail(t)
            if nm == "is_ipv6":
                return six
            if nm == "is_ipv4":
                return not six
            if nm in ("eq", "ne") and len(args_of(t)) == 2:
                a, b = ev(args_of(t)[0]), ev(args_of(t)[1])
                return None if a is None or b is None else (a == b) == (nm == "eq")
            if nm == "not" and len(args_of(t)) == 1:
                a = ev(args_of(t)[0])
                return None if a is None else not a
        if t.k == "op":
            if t.a[0] in ("Eq", "Ne", "BitXor", "BitAnd", "BitOr") and len(t.a) == 3:
                a, b = ev(t.a[1]), ev(t.a[2])
                if a is None or b is None:
                    return None
                return {"Eq": a == b, "Ne": a != b, "BitXor": a != b, "BitAnd": a and b, "BitOr": a or b}[t.a[0]]
            if t.a[0] == "Not":
                a = ev(t.a[1])
                return None if a is None else not a
        return None
    for t, r in env.items():
        x = ev(t)
        if r[0] == "is" and x is not None and isinstance(r[1], (bool, int)) and bool(r[1]) != x:
            return "infeasible"
    return ev(v)


def check_settings(ctx):
    n = {"launch": 0}

    def settle(side, tr, me, table, eng, st, ev, start):
        n["launch"] += 1
        for name, opt in table.items():
            if opt not in start.fields:
                continue
            v = setting(me, name)
            if v is None:
                eng.report("setting:%s:%s" % (side, name), "the %s is started without its %s having been set to %s" % (side, name, opt), st, ev.span)
            elif not plain(v, param(opt)) and v.k != "top":
                eng.report("setting:%s:%s" % (side, name), "the %s of the %s is not what %s was given" % (name, side, opt.replace("cmd.", "")), st, ev.span)
        t = setting(me, "transport")
        if t is not None and peel(t).k == "agg" and peel(t).a[1] in ("Tcp", "Udp") and peel(t).a[1] != tr:
            eng.report("transport:%s" % side, "the %s uses %s although %s was selected" % (side, peel(t).a[1], tr), st, ev.span)
        return t

    for tr in ("Tcp", "Udp"):
        trv = agg(PRE + "types::Transport", tr, [])
        for wd in (None, param("dir")):
            s = Start(ctx, "Server", {"cmd.opts.transport": trv, "cmd.working_dir": NONE() if wd is None else SOME(wd)})
            if not s.ok:
                ctx.inconclusive.append("the shape of the server's options")
                break

            def on_event(eng, st, hist, ev, tr=tr, wd=wd, s=s):
                if ev.kind == "call" and ev.name == "set_current_dir":
                    if wd is None:
                        eng.report("workdir:unasked", "the server changes its directory although none was given", st, ev.span)
                    elif not plain(ev.terms[0], wd):
                        eng.report("workdir:other", "the server changes to another directory than the one given", st, ev.span)
                    return
                if ev.kind != "call" or ev.name not in cli.LAUNCH or not path_match(ev.self_adt, "Server"):
                    return
                t = settle("server", tr, ev.terms[0], SERVER, eng, st, ev, s)
                a = param("cmd.addr")
                if t is not None:
                    whole_addr = contains(t, lambda x: x.k in ("agg", "op") and any(peel(y) is a for y in kids(x)) and x.a[0] != "closure")
                    ip = contains(t, lambda x: x.k in ("call", "pure") and tail(x) == "ip" and peel(args_of(x)[0]) is a)
                    port = contains(t, lambda x: x.k in ("call", "pure") and tail(x) == "port" and peel(args_of(x)[0]) is a)
                    if not contains(t, lambda x: x is a):
                        eng.report("addr:server", "the server does not listen on the given address", st, ev.span)
                    elif port and contains(t, lambda x: x.k == "agg" and x.a[0] in ("array", "slice", "vec") and any(contains(y, lambda z: tail(z) == "port") for _, y in x.a[2]) and any(peel(y).k == "c" for _, y in x.a[2])):
                        eng.report("addr:server:port", "the server does not only listen on the port it was given", st, ev.span)
                    elif not whole_addr and not (ip and port) and (ip or port):
                        eng.report("addr:server:%s" % ("port" if ip else "ip"), "the server does not listen on the %s it was given" % ("port" if ip else "ip address"), st, ev.span)
                if wd is not None and not any(e.kind == "call" and e.name == "set_current_dir" and succeeded(st, e.res) for e in hist):
                    eng.report("workdir:ignored", "the server starts without having changed to the directory it was given", st, ev.span)
            s.run("server %s" % tr, on_event, want=lambda c: not c.local and c.name == "set_current_dir", stop=is_launch)
        for six in (False, True):
            s = Start(ctx, "Client", {"cmd.opts.transport": trv, "cmd.ipv6": flag(six), "cmd.output_format": fmt("Human")}, "Version")
            if not s.ok:
                ctx.inconclusive.append("the shape of the client's options")
                break

            def on_event(eng, st, hist, ev, tr=tr, six=six, s=s):
                if ev.kind != "call" or ev.name != "connect" or not path_match(ev.self_adt, "Client"):
                    return
                t = settle("client", tr, ev.terms[0], CLIENT, eng, st, ev, s)
                if t is None:
                    return
                empty = peel(t).k == "agg" and not contains(t, lambda x: x.k in ("call", "pure") and tail(x) not in ("new", "with_capacity", "default", "unwrap_or_default"))
                if not contains(t, lambda x: x is param("cmd.addr")) and not empty:
                    eng.report("addr:client", "the client does not connect to the given address", st, ev.span)
                    return
                if empty:
                    return
                # which addresses does the resolution let through?
                facts = [(x, r) for x, r in st.ref.items() if contains(x, lambda y: y.k in ("call", "pure") and tail(y) in ("is_ipv6", "is_ipv4"))]
                clos = [c for c in closures(t) if ctx.f.body(c.a[1]) is not None]
                say = {}
                for fam in (False, True):
                    if facts:
                        say[fam] = accepts(flag(True), fam, dict(facts)) != "infeasible"
                    for c in clos:
                        rets = [accepts(v, fam, env) for v, env in closure_rets(ctx, c)]
                        rets = [x for x in rets if x != "infeasible"]
                        if rets and None not in rets and ("find" in show(t, -9) or True):
                            say[fam] = any(rets) if fam not in say else say[fam] and any(rets)
                if not say:
                    if not clos:
                        eng.report("ipv6", "the client connects to whatever the address resolves to first, whether IPv6 was asked for or not", st, ev.span)
                    return
                if say.get(not six):
                    eng.report("ipv6", "the client may connect to an %s address although %s was asked for" % (("IPv4", "IPv6") if six else ("IPv6", "IPv4")), st, ev.span)
                elif say.get(six) is False:
                    eng.report("ipv6:none", "the client cannot connect to an %s address although it was asked for" % ("IPv6" if six else "IPv4"), st, ev.span)
            s.run("client %s" % tr, on_event, stop=is_launch)
    ctx.count("starts from the command line", n["launch"], 2)


# ------------------------------------------------------------------ subcommands
def check_client(eng, st, ev, sub):
    """the connection used for a request"""
    me = mut_base(ev.terms[0])
    if me.k == "upd" and not any(p.strip(".") == "timeout" for p, _ in me.a[1]) or me.k not in ("upd",):
        if contains(me, lambda x: x is param("conn")):
            eng.report("timeout", "a client is used without its timeout having been set to the one given", st, ev.span)
        return
    v = setting(me, "timeout")
    if v is not None and not plain(v, param("cmd.opts.timeout")):
        eng.report("timeout", "the timeout of the client is not the one given", st, ev.span)


def file_of(v, names):
    """is v the file that was opened?"""
    roots = [x for x in atoms(v) if x.k == "param" and str(x.a[0]).startswith("re:")]
    return any(x.a[0][3:] in names for x in roots)


def check_sub(ctx, sub, spec, n):
    for form in formats(ctx):
        for redirect in (None, param("out")):
            s = Start(ctx, "Client", {"cmd.output_format": fmt(form), "cmd.redirect_stdout": NONE() if redirect is None else SOME(redirect),
                                      "cmd.redirect_stderr": NONE()}, sub)
            if not s.ok:
                ctx.inconclusive.append("there is no subcommand %s" % sub)
                return
            last = spec["ops"][-1][0]
            allowed = {x for names, _ in spec["ops"] for x in names}

            def on_event(eng, st, hist, ev, sub=sub, form=form, s=s, allowed=allowed):
                if ev.kind != "call":
                    return
                if not is_ask_ev(ev):
                    return
                n["asks"] += 1
                check_client(eng, st, ev, sub)
                if ev.name in FREE:
                    return
                if ev.name == "ask":
                    n["raw"] += 1
                    return
                if ev.name not in allowed:
                    eng.report("%s:other:%s" % (sub, ev.name), "the subcommand %s makes the request %s" % (sub, ev.name), st, ev.span)
                    return
                names, args = next(x for x in spec["ops"] if ev.name in x[0])
                for i, a in enumerate(args):
                    if i + 1 >= len(ev.terms):
                        continue
                    v = ev.terms[i + 1]
                    if a == "FILE":
                        if not file_of(v, spec["ops"][0][0]):
                            eng.report("%s:file" % sub, "%s works on another file than the one it opened" % sub, st, ev.span)
                        continue
                    if arg(a) in s.fields and not plain(v, param(arg(a))):
                        eng.report("%s:%s" % (sub, a), "the argument '%s' of %s is not what %s is given in its place" % (a, sub, ev.name), st, ev.span)
                    # the same value must not stand in for another role
            def on_ret(eng, st, hist, val, sub=sub, form=form, redirect=redirect, last=last):
                if not (val.k == "agg" and val.a[1] == "Ok"):
                    return
                outs = [(i, e, out_of(e)) for i, e in enumerate(hist) if out_of(e) is not None]
                asked = [e for e in hist if e.kind == "call" and is_ask_ev(e)]
                if any(e.name == "ask" for e in asked):
                    return
                done = all(any(e.name in names and succeeded(st, e.res) for e in asked) for names, _ in spec["ops"])
                if not done:
                    if form != "Human" and any(error_in(o[1]) for _, _, o in outs):
                        return
                    what = "ends well although it was not carried out" if form == "Human" else "says nothing of its failure"
                    eng.report("%s:undone:%s" % (sub, form), "%s (%s) %s" % (sub, form, what), st)
                    return
                i0 = max(i for i, e in enumerate(hist) if e.kind == "call" and e.name in last)
                op = hist[i0].name
                outs = [(i, e, o) for i, e, o in outs if i > i0]
                if form != "Human":
                    if any(error_in(o[1]) for _, _, o in outs):
                        return      # something on the way failed, and was reported
                    hit = [o for _, e, o in outs if reply_in(o[1], spec["reply"], op) and ser(o[1], form)]
                    if not hit:
                        eng.report("%s:reply:%s" % (sub, form), "%s does not report the reply of its request as %s" % (sub, form), st)
                    return
                to = "stdout" if redirect is None else redirect
                mine = [(i, e, o) for i, e, o in outs if (o[0] == to if isinstance(to, str) else not isinstance(o[0], str) and plain(o[0], to))]
                want = [(i, e, o) for i, e, o in mine if contains(o[1], lambda x: x is re(op)) or not spec.get("shows") and contains(o[1], lambda x: x.k == "param" and str(x.a[0]).startswith("c."))]
                turns = [r for t, r in st.ref.items() if t.k in ("call", "pure", "mut") and tail(t) == "next" and contains(t, lambda x: x is re(op))]
                if not want and mine and turns and all(r == ("is", "None") for r in turns):
                    return      # the result is a list of nothing: its text is made up turn by turn
                if not want:
                    eng.report("%s:report:%s" % (sub, "stdout" if redirect is None else "file"), "%s ends well without its result having been written to %s"
                               % (sub, "stdout" if redirect is None else "the file given for it"), st)
                elif redirect is not None and not flushed(st, hist, want[-1][0]):
                    eng.report("flush", "text that is redirected to a file may not have been written when %s ends" % sub, st)
            s.run("%s %s" % (sub, form), on_event, on_ret)
            n["subs"] += 1


def ser(v, form):
    import re as rx
    return contains(v, lambda x: x.k in ("call", "pure") and rx.search(SERIAL.get(form, "."), x.a[0].lower()) is not None)


def flushed(st, hist, i):
    """was the file that hist[i] wrote to flushed afterwards?"""
    if "std::fs" in hist[i].path or "io::Write" in (hist[i].trait or "") and "Async" not in (hist[i].trait or ""):
        return True
    if hist[i].name == "write" and "fs::write" in hist[i].path:
        return True
    return any(e.kind == "call" and e.name in ("flush", "shutdown", "sync_all", "sync_data") and st.ref.get(e.res) != ("is", "Err") for e in hist[i + 1:])


def is_ask_ev(ev):
    return ev.kind == "call" and (ev.name == "ask" or ev.name.startswith(("ask_", "tell"))) and path_match(ev.self_adt, "ConnectedClient")


# ------------------------------------------------------------------ exec
EXEC = ("command", "args", None, True, True, "current_dir")


def check_exec(ctx, n):
    for sub in ("Exec", "ReattachExec"):
        for form in [x for x in formats(ctx) if x in ("Human", "Json")]:
            for stdin, redirect in ((True, False), (False, True)):
                out, err = (param("out"), param("err")) if redirect else (None, None)
                fix = {"cmd.output_format": fmt(form), "cmd.redirect_stdout": SOME(out) if redirect else NONE(), "cmd.redirect_stderr": SOME(err) if redirect else NONE(),
                       "c.no_stdin": flag(not stdin), "cmd.exit_print": flag(True)}
                s = Start(ctx, "Client", fix, sub)
                if not s.ok:
                    ctx.inconclusive.append("there is no subcommand %s" % sub)
                    return

                def on_event(eng, st, hist, ev, sub=sub, form=form, stdin=stdin, out=out, err=err, s=s):
                    if ev.kind != "call":
                        return
                    if ev.name in ("read_line", "read_until", "read", "read_to_string") and contains(ev.terms[0], lambda x: x.k in ("call", "pure") and tail(x) == "stdin"):
                        if not stdin:
                            eng.report("%s:stdin:read" % sub, "%s reads stdin although it was told not to send it" % sub, st, ev.span)
                        return
                    o = out_of(ev)
                    if o is not None:
                        judge_out(eng, st, ev, o, sub, form, out, err)
                        return
                    if not is_ask_ev(ev):
                        return
                    n["asks"] += 1
                    check_client(eng, st, ev, sub)
                    if ev.name.startswith("ask_exec_proc"):
                        if sub != "Exec":
                            eng.report("%s:exec" % sub, "reattaching starts another process", st, ev.span)
                            return
                        if ev.name != "ask_exec_proc_with_options":
                            if ev.name == "ask_exec_proc" or len(ev.terms) < 4:
                                eng.report("Exec:current_dir", "the process is started without the directory that was given", st, ev.span)
                            return
                        for i, a in enumerate(EXEC):
                            v = ev.terms[i + 1] if i + 1 < len(ev.terms) else None
                            if v is None:
                                continue
                            if a is None:
                                if stdin and v == flag(False):
                                    eng.report("Exec:stdin", "the process is started without a stdin although stdin is to be sent", st, ev.span)
                            elif a is True:
                                if v == flag(False):
                                    eng.report("Exec:output", "the process is started without its output being captured", st, ev.span)
                            elif not plain(v, param(arg(a))):
                                eng.report("Exec:%s" % a, "'%s' is not what the process is started with in its place" % a, st, ev.span)
                        return
                    if ev.name in ("ask_write_proc_stdin", "ask_read_proc_stdout", "ask_read_proc_stderr", "ask_read_proc_status"):
                        p = ev.terms[1]
                        want = param("c.id") if sub == "ReattachExec" else re("ask_exec_proc_with_options")
                        if not contains(p, lambda x: x is want):
                            eng.report("%s:proc:%s" % (sub, ev.name), "%s works on another process than its own (%s)" % (sub, ev.name), st, ev.span)
                        if ev.name == "ask_write_proc_stdin":
                            if not stdin:
                                eng.report("%s:stdin:sent" % sub, "%s sends stdin although it was told not to" % sub, st, ev.span)
                            elif not contains(ev.terms[2], lambda x: x.k in ("mut", "call") and tail(x).startswith("read")):
                                eng.report("%s:stdin:other" % sub, "what %s sends to the process is not what was read from stdin" % sub, st, ev.span)
                        # what was read before must have been shown by now
                        for ask in ("ask_read_proc_stdout", "ask_read_proc_stderr"):
                            if any(e.kind == "call" and e.name == ask for e in hist) and not emptied(st, ask, eng.dropped):
                                eng.report("%s:lost:%s" % (sub, ask), "%s drops what it read with %s" % (sub, ask), st, ev.span)
                        return
                    if ev.name in FREE or ev.name == "ask":
                        return
                    eng.report("%s:other:%s" % (sub, ev.name), "the subcommand %s makes the request %s" % (sub, ev.name), st, ev.span)

                def on_ret(eng, st, hist, val, sub=sub, form=form):
                    if not (val.k == "agg" and val.a[1] == "Ok"):
                        return
                    if form != "Human" and any(out_of(e) is not None and error_in(out_of(e)[1]) for e in hist):
                        return
                    status = mk("proj", mk("proj", mk("proj", re("ask_read_proc_status"), "@Ok"), ".0"), ".is_alive")
                    if st.ref.get(status) not in (("is", False), ("is", 0)):
                        eng.report("%s:early" % sub, "%s can end well although the process was not found to have exited" % sub, st)
                        return
                    el = [(e.terms[0], ("is", e.res)) for e in hist if e.kind == "br" and contains(e.terms[0], lambda x: x.k in ("call", "pure") and tail(x) in ("elapsed", "duration_since", "delay_for", "sleep"))
                          and contains(e.terms[0], lambda x: x is param("c.post_exit_duration"))]
                    waits = [e for e in hist if e.kind == "call" and e.name in ("delay_for", "sleep", "delay_until", "sleep_until") and any(contains(t, lambda x: x is param("c.post_exit_duration")) for t in e.terms)]
                    if not el and not waits:
                        eng.report("%s:linger" % sub, "%s ends without having waited for the time given for lingering output" % sub, st)
                    elif el and not waits:
                        for t, r in el:
                            v = lingered(t, r)
                            if v is False:
                                eng.report("%s:linger" % sub, "%s ends before the time given for lingering output has passed" % sub, st)

                def trim(h):
                    # what was read and not shown yet, the latest look at the clock, the latest error shown
                    e = h[-1]
                    o = out_of(e)
                    if o is not None:
                        h = [x for x in h[:-1] if not (is_ask_ev(x) and contains(o[1], lambda y, x=x: y is re(x.name)))] + ([e] if error_in(o[1]) else [])
                    keep = {}
                    for x in h:
                        k = "out" if out_of(x) is not None else x.kind if x.kind != "call" else x.name
                        if k in ("br", "out", "ask_read_proc_stdout", "ask_read_proc_stderr", "delay_for", "sleep", "delay_until", "sleep_until"):
                            keep[k] = x
                    return [keep[k] for k in sorted(keep)]
                s.run("%s %s" % (sub, form), on_event, on_ret, want=lambda c: not c.local and c.name in ("read_line", "read_until", "delay_for", "sleep"), trim=trim, max_hist=14,
                      keep=False, sure=True, br=lambda t: contains(t, lambda x: x is param("c.post_exit_duration")))
                n["subs"] += 1


def emptied(st, ask, dropped):
    """was what was read found to be empty?"""
    def about(t):
        return contains(t, lambda x: x is re(ask))
    for t, r in list(st.ref.items()) + list(dropped.items()):
        if not about(t):
            continue
        if t is re(ask) and r == ("is", "Err"):
            return True
        if r[0] == "is" and t.k in ("call", "pure") and tail(t) == "is_empty" and r[1]:
            return True
        if r[0] == "is" and t.k in ("call", "pure") and tail(t) == "len" and r[1] == 0:
            return True
        if r[0] == "is" and t.k == "op" and any(x.k == "c" and x.a[0] in (0, 1) for x in t.a[1:]) and contains(t, lambda x: x.k in ("call", "pure") and tail(x) == "len"):
            return True
    return False


def lingered(t, r):
    """does the comparison say that the time has passed?"""
    d = param("c.post_exit_duration")
    if r[0] != "is" or not isinstance(r[1], (bool, int)):
        return None
    yes = bool(r[1])
    nm = tail(t) if t.k in ("call", "pure") else t.a[0] if t.k == "op" else ""
    a = args_of(t) if t.k in ("call", "pure") else t.a[1:]
    if len(a) != 2:
        return None
    nm = nm.lower()
    left = contains(a[1], lambda x: x is d) and not contains(a[0], lambda x: x is d)
    right = contains(a[0], lambda x: x is d) and not contains(a[1], lambda x: x is d)
    if not (left or right) or nm not in ("lt", "le", "gt", "ge"):
        return None
    passed = {"lt": False, "le": False, "gt": True, "ge": True}[nm]     # elapsed <op> duration
    if right:
        passed = not passed
    return passed == yes


def judge_out(eng, st, ev, o, sub, form, out, err):
    where, text = o
    for ask, variant, std, path in (("ask_read_proc_stdout", "ProcStdoutContents", "stdout", out), ("ask_read_proc_stderr", "ProcStderrContents", "stderr", err)):
        if not contains(text, lambda x: x is re(ask)):
            continue
        if contains(text, lambda x: x.k == "proj" and x.a[1] == "@Err"):
            continue
        if form != "Human":
            if not reply_in(text, variant, ask):
                eng.report("%s:reply:%s" % (sub, ask), "%s does not report what it read with %s as the reply it is" % (sub, ask), st, ev.span)
            continue
        good = where == std if path is None else not isinstance(where, str) and plain(where, path)
        if not good:
            eng.report("%s:where:%s" % (sub, ask), "what %s read with %s is written to %s" % (sub, ask, where if isinstance(where, str) else "another file"), st, ev.span)
        elif path is not None and loses(ev):
            eng.report("%s:truncate:%s" % (sub, ask), "what %s read with %s replaces what was read before" % (sub, ask), st, ev.span)


# ------------------------------------------------------------------ raw and schema
def check_raw(ctx, n):
    for form in [x for x in formats(ctx) if x != "Human"][:1]:
        for meta in (False, True):
            s = Start(ctx, "Client", {"c.input": SOME(param("text")), "c.format": fmt(form), "c.meta_mode": flag(meta), "c.interactive": flag(False), "cmd.output_format": fmt("Human")}, "Raw")
            if not s.ok:
                ctx.inconclusive.append("there is no subcommand Raw")
                return

            def on_event(eng, st, hist, ev):
                if is_ask_ev(ev):
                    n["asks"] += 1
                    check_client(eng, st, ev, "Raw")
                    if ev.name != "ask" or not contains(ev.terms[1], lambda x: x is param("text")):
                        eng.report("Raw:request", "what is sent for a raw input is not that input", st, ev.span)

            def on_ret(eng, st, hist, val, meta=meta):
                if not (val.k == "agg" and val.a[1] == "Ok"):
                    return
                outs = [out_of(e) for e in hist if out_of(e) is not None]
                if not outs:
                    eng.report("Raw:silent", "a raw request ends well without a report", st)
                    return
                asked = [e for e in hist if is_ask_ev(e)]
                if asked and succeeded(st, asked[-1].res):
                    if not any(contains(o[1], lambda x: x is re("ask")) for o in outs):
                        eng.report("Raw:reply", "the reply to a raw request is not reported", st)
                    elif meta and not any(contains(o[1], lambda x: x is param("text")) for o in outs):
                        eng.report("Raw:metadata", "the metadata of a raw request is not reported with its reply", st)
                elif not any(error_in(o[1]) or contains(o[1], lambda x: x.k == "agg" and path_match(x.a[0], "Reply")) for o in outs):
                    eng.report("Raw:error", "the failure of a raw request is not reported", st)
            s.run("Raw", on_event, on_ret)
            n["subs"] += 1


def check_schema(ctx):
    a = ctx.f.adt(PRE + "schema::SchemaType")
    if a is None or ctx.f.adt(PRE + "schema::SchemaSubcommand") is None:
        ctx.inconclusive.append("the schema command")
        return
    n = 0
    for v in a.variants:
        nm = v[0]
        if nm.endswith("Request") and nm != "Request":
            want, mod = nm[:-7] + "Args", "request"
        elif nm.endswith("Reply") and nm != "Reply":
            want, mod = SCHEMA_REPLY.get(nm[:-5], "?") + "Args", "reply"
        elif nm in ("Content", "Request", "Reply"):
            want, mod = nm, ""
        else:
            continue
        if v[2] or want == "?Args":
            continue
        info = agg(PRE + "schema::SchemaInfo", "", [("schema_type", agg(PRE + "schema::SchemaType", nm, []))])
        s = Start(ctx, "Schema", {"cmd.command": agg(PRE + "schema::SchemaSubcommand", "Info", [("0", info)])})
        if not s.ok:
            return

        def spy(eng, st, call, nm=nm, want=want, mod=mod):
            c = call.callee
            if c is None or c.name not in ("schema", "schema_for", "into_root_schema_for", "root_schema_for"):
                return
            for x in list(c.args) + [c.self_adt]:
                got = strip_generics(x)
                if not got.startswith("core::"):
                    continue
                if got.rsplit("::", 1)[-1] != want or mod and mod not in got.split("::"):
                    eng.report("schema:" + nm, "the schema printed for %s is that of %s" % (nm, got), st, call.span)
                break
        s.run("schema " + nm, None, spy=spy, opaque=lambda c: c.name == "schema", max_states=3000)
        n += 1
    ctx.count("types whose schema can be asked for", n, 10)


def check_units(ctx):
    """durations are read in the unit they are documented in"""
    for nm, good, bad in (("parse_duration_secs", ("from_secs", "from_secs_f64", "from_secs_f32", "try_from_secs_f64", "try_from_secs_f32"), ("from_millis", "from_micros", "from_nanos")),
                          ("parse_duration_millis", ("from_millis",), ("from_secs", "from_secs_f64", "try_from_secs_f64", "from_micros", "from_nanos"))):
        for b in ctx.f.fns(nm):
            def on_ret(eng, st, hist, val, nm=nm, good=good, bad=bad):
                if not (val.k == "agg" and val.a[1] == "Ok") and val.k == "agg":
                    return
                made = [x for x in subterms(val) if x.k in ("call", "pure") and tail(x) in good + bad]
                arith = any(x.k == "op" and x.a[0].rstrip("Unchecked") in ("Mul", "Div") or x.k in ("call", "pure") and tail(x) in ("mul", "div", "mul_f64") for x in subterms(val))
                if not arith and made and any(tail(x) in bad for x in made):
                    eng.report("unit:" + nm, "%s reads the number it is given in another unit" % nm, st)
                elif arith and made and all(tail(x) in good for x in made):
                    eng.report("unit:" + nm, "%s changes the number it is given" % nm, st)
            ctx.run(Trace(want=lambda c: False, on_ret=on_ret, wantbranch=lambda t: False), b)


def check(ctx):
    ctx.explanation = ("The command line's entry point is analysed on options of a known shape whose values are symbols: every subcommand, with every output format, with and without "
                       "redirection, both transports, with and without a directory, IPv4 and IPv6. At the launch each setting must be the symbol of its own option; every request made "
                       "must be one the subcommand stands for, with the symbols of its own arguments in their roles; a path that ends well must have carried the requests out and "
                       "written their reply to where it was directed.")
    ctx.rules = ["each setting at the launch is the option documented for it", "each subcommand makes its own requests with its own arguments in their roles",
                 "each subcommand reports its own reply, where directed, flushed", "exec: stdin, stdout, stderr and lingering as asked", "schema of the named type"]
    if not cli.present(ctx):
        return
    n = {"asks": 0, "subs": 0, "raw": 0}
    check_settings(ctx)
    for sub, spec in OPS.items():
        check_sub(ctx, sub, spec, n)
    check_exec(ctx, n)
    check_raw(ctx, n)
    check_schema(ctx)
    check_units(ctx)
    ctx.count("requests made by subcommands", n["asks"], 10)
    ctx.counts["runs of subcommands"] = n["subs"]
