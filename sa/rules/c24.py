"""C24: processes are started as asked, never outlive the server, and report truthfully."""
from common import *
from rules.handlers import args_param, explore, handler_bodies, ident, in_tests, of_field, peel

STREAMS = ("stdin", "stdout", "stderr")
SPAWNS = {"spawn", "spawn_local", "spawn_on"}
READS = {"read", "read_buf", "read_to_end", "read_exact", "poll_read", "read_until", "next", "next_line", "copy", "fill_buf"}
APPENDS = {"extend_from_slice", "extend", "append", "write_all", "put", "put_slice", "push"}


def check(ctx):
    ctx.explanation = ("Starting a process is followed through every step of building the command; the wrapper of a running process is followed method by method: which pipes it says it "
                       "has, what the collecting task does with every read until the stream ends, what a read hands out, what killing does, and when it says that the process has ended.")
    ctx.rules = ["the command is started with the command, arguments and directory asked for, a pipe for exactly the streams asked for, killed on drop, and nothing else set",
                 "a started process is collecting its output and is kept under its own id", "both piped outputs are read to their end at the same time, and everything read is added to the buffer of its stream",
                 "a stream is said to be there exactly if the process has a pipe for it", "a read hands out and empties the buffer of its own stream, and fails if there is no pipe",
                 "a write to a missing pipe fails, and a successful one has written everything", "killing kills, and waiting waits for the end",
                 "a process has ended exactly if the operating system said so; its success and exit code are its own", "a status reply says alive exactly if no exit status was found"]
    check_exec(ctx)
    check_new(ctx)
    check_collect(ctx)
    check_io(ctx)
    check_kill(ctx)
    check_status(ctx)


def is_proc(c):
    return c.local and path_match(c.self_adt, "LocalProc")


def is_command(c):
    return not c.local and ("process::Command" in c.path or "CommandExt" in c.path)


# ---------------------------------------------------------------- starting
def check_exec(ctx):
    n = {"spawned": 0, "ok": 0}
    for b in handler_bodies(ctx, "exec_proc"):
        args = args_param(b)
        fld = lambda f: mk("proj", args, "." + f)

        def on_event(eng, st, hist, ev):
            if ev.kind == "call" and ev.name == "next" and over(ev.res, fld("args")):
                prev = [e for e in hist if e.kind == "call" and e.res is ev.res]
                if prev and any(e.kind == "br" and e.terms[0] is ev.res and e.res == "Some" for e in hist):
                    i = max(k for k, e in enumerate(hist) if e == prev[-1])
                    ok = sum(1 for e in hist[i:] if e.kind == "call" and e.name == "arg" and is_cmd_ev(e)) == 1
                    eng.oblige("no argument is left out", ok, "args", "the arguments of what is started are not those asked for", st, ev.span)
            if ev.kind != "call" or not is_cmd_ev(ev) or ev.name not in ("spawn", "output", "status", "exec"):
                return
            rep = lambda key, msg: eng.report(key, msg, st, ev.span)
            if ev.name != "spawn":
                rep("start", "the command is run by %s instead of being started" % ev.name)
                return
            n["spawned"] += 1
            cfg = [e for e in hist if e.kind == "call" and is_cmd_ev(e)]
            new = [e for e in cfg if e.name == "new"]
            eng.oblige("the command is the one asked for", len(new) == 1 and peel(new[0].terms[0]) is fld("command"), "command", "what is started is not the command asked for", st, ev.span)
            av = [e for e in cfg if e.name in ("args", "arg")]
            ok = len(av) == 1 and av[0].name == "args" and peel(av[0].terms[1]) is fld("args")
            if not ok and all(e.name == "arg" and is_elem(e.terms[1], fld("args")) for e in av):
                # a loop over all of them
                ok = any(tail(t) == "next" and r == ("is", "None") and over(t, fld("args")) for t, r in st.ref.items())
            eng.oblige("the arguments are the ones asked for", ok, "args", "the arguments of what is started are not those asked for", st, ev.span)
            for s in STREAMS:
                e = [x for x in cfg if x.name == s]
                r = st.ref.get(fld(s))
                v = peel(e[-1].terms[1]) if e else None
                want = {("is", True): "piped", ("is", False): "null"}.get(r)
                eng.oblige("a stream is piped exactly if asked", v is not None and want is not None and tail(v) == want, s, "%s of what is started is not piped exactly if that was asked for" % s, st, ev.span)
            k = [x for x in cfg if x.name == "kill_on_drop"]
            eng.oblige("a dropped process is killed", bool(k) and is_true(k[-1].terms[1]), "drop", "a process that the server drops is not killed", st, ev.span)
            d = [x for x in cfg if x.name == "current_dir"]
            r = st.ref.get(fld("current_dir"))
            if r == ("is", "Some"):
                t = mk("proj", mk("proj", fld("current_dir"), "@Some"), ".0")
                ok = len(d) == 1 and dir_of(d[0].terms[1], t)
            else:
                ok = not d and r == ("is", "None")
            eng.oblige("the directory is the one asked for", ok, "dir", "what is started does not run in the directory asked for", st, ev.span)
            known = {"new", "args", "arg", "kill_on_drop", "current_dir", "spawn"} | set(STREAMS)
            for x in cfg:
                if x.name not in known and not x.name.startswith(("get_", "as_", "fmt")):
                    rep("extra:" + x.name, "what is started is changed by %s, which was not asked for" % x.name)

        def on_ret(eng, st, hist, val):
            started = [e for e in hist if e.kind == "call" and is_cmd_ev(e) and e.name == "spawn"]
            if not (val.k == "agg" and val.a[1] == "Ok"):
                if started and st.ref.get(started[-1].res) == ("is", "Ok"):
                    eng.report("lost", "a process can be started without being reported", st)
                return
            n["ok"] += 1
            ok = bool(started) and st.ref.get(started[-1].res) == ("is", "Ok")
            child = mk("proj", mk("proj", started[-1].res, "@Ok"), ".0") if ok else None
            made = [e for e in hist if e.kind == "call" and e.name == "new" and "LocalProc" in e.path and e.terms[0] is child]
            eng.oblige("success means the process was started", ok and bool(made), "ok", "success is reported although no process was started", st)
            if not made:
                return
            run = [e for e in hist if e.kind == "call" and e.name == "spawn" and "LocalProc" in e.path and contains(e.terms[0], lambda x: x is made[-1].res)]
            eng.oblige("output is collected from the start", bool(run), "collect", "a process is started without its output being collected", st)
            p = run[-1].res if run else made[-1].res
            kept = [e for e in hist if e.kind == "call" and e.name == "insert" and of_field(e.terms[0], "procs")]
            mine = lambda v: tail(v) == "id" and contains(v, lambda x: x is p or x is made[-1].res) or tail(v) == "id" and contains(v, lambda x: x is child) or \
                v.k == "proj" and v.a[1] == ".id" and contains(v, lambda x: x is p)
            ok = bool(kept) and mine(peel(kept[-1].terms[1])) and contains(kept[-1].terms[2], lambda x: x is p)
            eng.oblige("a process is kept under its own id", ok, "keep", "a started process is not kept under its own id", st)
            d = unwrap_args(val)
            eng.oblige("the id of the process is reported", "id" in d and mine(peel(d["id"])), "reply", "another id than that of the process is reported", st)
        explore(ctx, b, on_event=on_event, on_ret=on_ret, want=lambda c: is_proc(c) or is_command(c) or c.name == "next", opaque=is_proc, branches=lambda t: tail(t) == "next")
    ctx.count("ways a process is started", n["spawned"], 4)
    ctx.count("successful starts", n["ok"], 4)


def unwrap_args(val):
    v = dict(val.a[2]).get("0") if val.k == "agg" else None
    return dict(v.a[2]) if v is not None and v.k == "agg" else {}


def is_true(v):
    return v.k == "c" and v.a[0] in (True, 1) and v.a[0] is not False


def is_cmd_ev(e):
    return "process::Command" in e.path or "CommandExt" in e.path


def over(v, coll):
    """the next of exactly this collection"""
    if not (v.k in ("call", "pure") and tail(v) == "next" and args_of(v)):
        return False
    v = peel(args_of(v)[0])
    while v.k in ("call", "pure") and tail(v) in ("iter", "into_iter", "by_ref", "cloned", "copied", "iter_mut") or v.k == "mut" and contains(v, lambda x: x is coll):
        v = peel(args_of(v)[0]) if v.k != "mut" else peel(v.a[1][0] if isinstance(v.a[1], tuple) else v.a[1])
    return v is coll


def is_elem(v, coll):
    v = peel(v)
    return v.k == "proj" and v.a[1] == ".0" and v.a[0].k == "proj" and v.a[0].a[1] == "@Some" and over(v.a[0].a[0], coll)


def dir_of(v, t):
    v = peel(v)
    while v is not t:
        if v.k == "proj" and v.a[1] in (".0", "@Ok"):
            v = v.a[0]
        elif v.k in ("call", "pure") and tail(v) in ("canonicalize", "new", "join", "to_path_buf", "as_path", "into_path_buf") and args_of(v) and (tail(v) != "join"):
            v = peel(args_of(v)[0])
        else:
            return peel(v) is t
    return True


# ---------------------------------------------------------------- what pipes there are
def some_of(eng, st, v, t):
    """is the boolean v true exactly if the option t is there?"""
    neg = False
    while v.k == "op" and v.a[0] == "Not":
        neg, v = not neg, v.a[1]
    r = None
    if v.k == "c":
        k = st.ref.get(t)
        if k and k[0] == "is" and k[1] in ("Some", "None"):
            r = (k[1] == "Some") == bool(v.a[0])
    elif v.k in ("call", "pure") and tail(v) in ("is_some", "is_none") and peel(args_of(v)[0]) is t:
        r = tail(v) == "is_some"
    elif v.k == "op" and v.a[0] in ("Eq", "Ne"):
        a = v.a[1:]
        c, o = (a[0], a[1]) if a[0].k == "c" else (a[1], a[0])
        src = o.a[0] if o.k == "discr" else args_of(o)[0] if o.k in ("call", "pure") and tail(o) == "discr" else None
        if src is not None and peel(src) is t and c.k == "c":
            r = (int(c.a[0]) == 1) == (v.a[0] == "Eq")
    return r if r is None or not neg else not r


def check_new(ctx):
    n = 0
    for b in ctx.anchor([x for x in ctx.f.fns("new", self_adt="LocalProc") if not in_tests(x)], "LocalProc::new"):
        child = param(b.locals[1][1] or "child")

        def on_ret(eng, st, hist, val, child=child):
            d = dict(val.a[2]) if val.k == "agg" else {}
            eng.oblige("the wrapper holds the process", d.get("inner") is child, "new:inner", "the wrapper of a process holds another one", st)
            for s in ("stdout", "stderr"):
                v = d.get("supports_" + s)
                if v is not None:
                    eng.oblige("a pipe is there exactly if the process has it", some_of(eng, st, v, mk("proj", child, "." + s)) is True, "new:" + s, "whether a process has a pipe for %s is not told by that pipe" % s, st)
            i = d.get("id")
            eng.oblige("the id is that of the process", i is not None and tail(peel(i)) == "id" and contains(i, lambda x: x is child), "new:id", "the id of a process is not its own", st)
            e = d.get("exit_status")
            eng.oblige("a new process has not ended", e is not None and (e.k == "agg" and e.a[1] == "None"), "new:status", "a process is taken to have ended when it starts", st)
            a, z = d.get("stdout_buf"), d.get("stderr_buf")
            if a is not None and z is not None:
                calls = [t for t in (peel(a), peel(z))]
                same = calls[0] is calls[1] and not distinct(ctx, b)
                eng.oblige("each stream has its own buffer", not same, "new:buf", "both streams share a buffer", st)
        r = Trace(want=lambda c: False, on_ret=on_ret, wantbranch=lambda t: False)
        r.keep_all_refinements = True
        ctx.run(r, b, what="LocalProc::new")
        n += 1
    ctx.count("wrappers of processes", n, 1)


def distinct(ctx, b):
    """are two buffers made (rather than one made and shared)?"""
    made = shared = 0
    for x in reach(ctx.f, [b]):
        x = ctx.f.body(x) if isinstance(x, str) else x
        if x is None:
            continue
        for cj in calls_of(x):
            if cj["name"] in ("new", "default", "from", "with_capacity") and any(k in cj["fn"] for k in ("Mutex", "RwLock")):
                made += 1
            if cj["name"] == "clone" and "Arc" in " ".join(cj.get("args") or []) + cj["fn"]:
                shared += 1
    return made >= 2 or not shared


# ---------------------------------------------------------------- collecting
class Tasks(Trace):
    max_hist = 60

    def runs_closures(self, callee):
        return callee.local


def pieces(t):
    return [x for x in subterms(t) if x.k == "agg" and x.a[0] in ("closure", "coroutine")]


def stream_of(t):
    """which stream of the process does a term stem from?"""
    out = set()
    for x in subterms(t):
        if x.k == "proj" and x.a[1] in (".stdout", ".stderr"):
            out.add(x.a[1][1:])
    return out


def buffer_of(t):
    out = set()
    for x in subterms(t):
        if x.k == "proj" and x.a[1] in (".stdout_buf", ".stderr_buf"):
            out.add(x.a[1][1:7])
    return out


def is_read_ev(e):
    return e.kind == "call" and e.name in READS and e.terms and bool(stream_of(e.terms[0])) and not buffer_of(e.terms[0])


def unread(t, r, res):
    """does what is known say that a read of the result `res` failed or was at the end?"""
    n = mk("proj", mk("proj", res, "@Ok"), ".0")
    if t is res and r == ("is", "Err"):
        return True
    if t is n and r[0] == "is" and r[1] == 0:
        return True
    if t.k == "op" and len(t.a) == 3 and r[0] == "is":
        op, a, z = t.a
        if a is not n and z is n:
            op = {"Gt": "Lt", "Lt": "Gt", "Ge": "Le", "Le": "Ge"}.get(op, op)
            a, z = z, a
        if a is n and z.k == "c":
            c, v = z.a[0], r[1]
            return (op, c, v) in (("Gt", 0, False), ("Eq", 0, True), ("Ne", 0, False), ("Le", 0, True), ("Lt", 1, True), ("Ge", 1, False))
    if t.k in ("call", "pure") and tail(t) == "is_empty" and r == ("is", True) and contains(t, lambda x: x is res):
        return True
    return False


def check_collect(ctx):
    n = {"reads": 0, "appends": 0, "ends": 0}
    found = set()
    for b in ctx.anchor([x for x in ctx.f.fns("spawn", self_adt="LocalProc") if not in_tests(x)], "LocalProc::spawn"):
        todo, done = [], set()
        started = set()

        def note(t, live):
            for c in pieces(t):
                if c not in done:
                    done.add(c)
                    todo.append(c)

        def on_event(eng, st, hist, ev):
            for t in ev.terms:
                note(t, True)
            if ev.kind == "call" and ev.name in SPAWNS and "LocalProc" not in ev.path:
                started.add(ev.short)
            if is_read_ev(ev):
                n["reads"] += 1
                found.update(stream_of(ev.terms[0]))
                prev = [e for e in hist if e.kind == "call" and e.name == ev.name and e.res is ev.res]
                if prev:
                    i = max(k for k, e in enumerate(hist) if e == prev[-1])
                    got = any(is_append(e) and contains(mk("t", *e.terms), lambda x: x is ev.res) for e in hist[i:])
                    known = any(e.kind == "br" and unread(e.terms[0], ("is", e.res), ev.res) for e in hist[i:])
                    eng.oblige("what was read is kept", got or known, "collect:lost", "output of a process can be dropped: the next read comes before what was read is kept", st, ev.span)
            if is_append(ev):
                n["appends"] += 1
                to = buffer_of(ev.terms[0])
                src = stream_of(mk("t", *ev.terms[1:]))
                eng.oblige("output goes to the buffer of its stream", to == src and len(to) == 1, "collect:%s" % "/".join(sorted(to)), "what is collected of %s goes to the buffer of %s" % ("/".join(sorted(src)) or "neither stream", "/".join(sorted(to))), st, ev.span)
                eng.oblige("exactly what was read is kept", exact(ev.terms[1]), "collect:exact", "what is kept of a read is not exactly what was read", st, ev.span)
            if ev.kind == "aw":
                s = stream_of(ev.terms[0])
                for e in hist:
                    if e.kind == "aw" and s and stream_of(e.terms[0]) and direct(ev.terms[0]) and direct(e.terms[0]) and stream_of(e.terms[0]) != s:
                        eng.oblige("both outputs are read at the same time", False, "collect:sequence", "one output is only read once the other has ended", st, ev.span)

        def on_ret(eng, st, hist, val):
            reads = [e for e in hist if is_read_ev(e)]
            if not reads:
                return
            n["ends"] += 1
            e = reads[-1]
            eng.oblige("a stream is read to its end", any(unread(t, r, e.res) for t, r in st.ref.items()), "collect:end", "collecting the output of a process can end before the output does", st, e.span)

        def go(body, args, what):
            r = Tasks(want=lambda c: True, on_event=on_event, on_ret=on_ret, wantbranch=lambda t: bool(stream_of(t)))
            r.keep_all_refinements = True
            r.relevant_body = lambda x: x.file().startswith("src/core/server/proc.rs") and not x.derived
            ctx.run(r, body, args, what=what)
        go(ctx.f.coroutine_of(b) or b, None, "LocalProc::spawn")
        while todo:
            c = todo.pop(0)
            body = ctx.f.body(c.a[1])
            if body is None or len(done) > 60:
                continue
            if c.a[0] == "closure" and body.argc > 1:
                continue
            go(body, {1: c}, None)
        ctx.oblige("output is collected by a task of its own", bool(started), "collect:task", "the output of a process is not collected by a task", b.span() if callable(getattr(b, "span", None)) else None)
    for s in ("stdout", "stderr"):
        ctx.oblige("both outputs are collected", s in found, "collect:none:" + s, "%s of a process is not collected" % s, None)
    ctx.count("reads of the output of a process", n["reads"], 1)
    ctx.count("pieces of output kept", n["appends"], 1)
    ctx.count("ends of collecting", n["ends"], 1)


def direct(t):
    return t.k in ("call", "pure") and tail(t) in READS


def is_append(e):
    return e.kind == "call" and e.name in APPENDS and e.terms and bool(buffer_of(e.terms[0])) and len(e.terms) > 1


def exact(v):
    """is this exactly the part of the buffer that a read filled?"""
    v = peel(v)
    if v.k in ("call", "pure") and tail(v) in ("iter", "into_iter", "copied", "cloned", "drain", "by_ref") and args_of(v):
        return exact(args_of(v)[0])
    if v.k in ("call", "pure") and tail(v) in ("index", "get", "get_unchecked", "split_at") and len(args_of(v)) == 2:
        r = peel(args_of(v)[1])
        d = dict(r.a[2]) if r.k == "agg" else {}
        start, end = d.get("start"), d.get("end")
        if "Inclusive" in str(r.a[0]) + str(r.a[1] if len(r.a) > 1 else ""):
            return False
        if start is not None and not (start.k == "c" and start.a[0] == 0):
            return False
        return end is not None and contains(end, lambda x: x.k in ("call", "pure") and tail(x) in READS) and peel(end).k == "proj"
    if v.k in ("call", "pure") and tail(v) == "take" and len(args_of(v)) == 2:
        return contains(args_of(v)[1], lambda x: x.k in ("call", "pure") and tail(x) in READS)
    # what a read into a growing buffer filled
    return contains(v, lambda x: x.k in ("mut", "call", "pure") and any(k in str(x.a[0]) for k in ("read_to_end", "read_buf", "read_until", "next", "fill_buf")))


# ---------------------------------------------------------------- reading and writing
def check_io(ctx):
    n = {"reads": 0, "writes": 0}
    for s in ("stdout", "stderr"):
        for b in ctx.anchor([x for x in ctx.f.fns("read_" + s, self_adt="LocalProc") if not in_tests(x)], "LocalProc::read_" + s):
            me = param(b.locals[1][1] or "self")
            there = mk("proj", me, ".supports_" + s)

            def on_ret(eng, st, hist, val, s=s, there=there):
                n["reads"] += 1
                err = val.k == "agg" and val.a[1] == "Err"
                r = st.ref.get(there)
                eng.oblige("a missing pipe is an error", err or r == ("is", True), "read:%s:missing" % s, "reading %s succeeds although there may be no pipe for it" % s, st)
                if err:
                    eng.oblige("reading an existing pipe succeeds", r != ("is", True), "read:%s:refused" % s, "reading %s fails although there is a pipe for it" % s, st)
                    return
                v = dict(val.a[2]).get("0", val) if val.k == "agg" else val
                got = buffer_of(v)
                empties = lambda t: tail(t) in ("drain", "take", "replace", "split_off", "split_to") and bool(buffer_of(mk("t", *args_of(t)))) and whole(t)
                ok = contains(v, lambda t: t.k in ("call", "pure") and empties(t))
                if not ok:
                    ok = any(e.kind == "call" and e.name in ("clear", "truncate", "append", "swap") and buffer_of(mk("t", *e.terms)) == {s} for e in hist)
                    got = got or set().union(*[buffer_of(mk("t", *e.terms)) for e in hist if e.kind == "call" and e.name in ("append", "swap")] or [set()])
                # taken by putting another in its place
                ok = ok or any(e.kind == "wr" and buffer_of(root_of(e)) == {s} and not buffer_of(e.terms[0]) for e in hist)
                eng.oblige("a read hands out the buffer of its stream", got == {s}, "read:%s:other" % s, "reading %s does not hand out what was collected of it" % s, st)
                eng.oblige("what was handed out is not handed out again", ok, "read:%s:again" % s, "reading %s leaves what was handed out in the buffer" % s, st)
            r = Trace(want=lambda c: not c.local, on_ret=on_ret, wantbranch=lambda t: False, writes=lambda root, path, val: root[0] == "D")
            r.keep_all_refinements = True
            ctx.run(r, ctx.f.coroutine_of(b) or b, what="LocalProc::read_" + s)
    for b in ctx.anchor([x for x in ctx.f.fns("write_stdin", self_adt="LocalProc") if not in_tests(x)], "LocalProc::write_stdin"):
        data = param(b.locals[2][1] or "buf")

        def on_ret(eng, st, hist, val):
            n["writes"] += 1
            err = val.k == "agg" and val.a[1] == "Err" or st.ref.get(val) == ("is", "Err")
            if err:
                return
            w = [e for e in hist if e.kind == "call" and e.name == "write_all" and of_field(e.terms[0], "stdin") and peel(e.terms[1]) is data]
            ok = bool(w) and (val is w[-1].res or st.ref.get(w[-1].res) == ("is", "Ok"))
            eng.oblige("a successful write has written everything", ok, "write", "writing to a process can succeed without everything having been written", st)
        r = Trace(want=lambda c: not c.local, on_ret=on_ret, wantbranch=lambda t: False)
        r.keep_all_refinements = True
        ctx.run(r, ctx.f.coroutine_of(b) or b, what="LocalProc::write_stdin")
    ctx.count("ends of reads", n["reads"], 4)
    ctx.count("ends of writes", n["writes"], 2)


def root_of(e):
    r = e.short
    return r if isinstance(r, V) else mk("t")


def whole(t):
    """is everything from the start on taken?"""
    a = args_of(t)
    if tail(t) in ("split_off", "drain", "split_to"):
        r = peel(a[1])
        if tail(t) == "split_off":
            return r.k == "c" and r.a[0] == 0
        d = dict(r.a[2]) if r.k == "agg" else {}
        s = d.get("start")
        return s is None or s.k == "c" and s.a[0] == 0
    return True


# ---------------------------------------------------------------- killing
def check_kill(ctx):
    n = {"kill": 0, "wait": 0}
    for name in ("kill", "kill_and_wait"):
        for b in ctx.anchor([x for x in ctx.f.fns(name, self_adt="LocalProc") if not in_tests(x)], "LocalProc::" + name):
            def on_ret(eng, st, hist, val, name=name):
                n["kill"] += 1
                child = lambda t: of_field(t, "inner")
                k = [e for e in hist if e.kind == "call" and e.name in ("kill", "start_kill") and "Child" in e.path and child(e.terms[0])]
                if val.k == "agg" and val.a[1] == "Err" or st.ref.get(val) == ("is", "Err"):
                    eng.oblige("a kill is tried before it is said to fail", bool(k), name + ":tried", "%s can fail without having tried to kill the process" % name, st)
                    return
                ok = bool(k) and (val is k[-1].res or st.ref.get(k[-1].res) != ("is", "Err"))
                eng.oblige("killing kills", ok, name + ":kill", "%s can succeed without killing the process" % name, st)
                if name == "kill_and_wait" and k:
                    i = hist.index(k[-1])
                    w = [e for e in hist[i:] if e.kind == "aw" and (child(e.terms[0]))]
                    eng.oblige("the end of a killed process is awaited", bool(w), name + ":wait", "%s can succeed without waiting for the process to end" % name, st)
                    src = peel(val)
                    if src.k == "agg":
                        src = dict(src.a[2]).get("0", src)
                    eng.oblige("the outcome is that of the process", contains(src, child), name + ":output", "%s does not return what the process ended with" % name, st)
                    n["wait"] += 1
            r = Trace(want=lambda c: not c.local, on_ret=on_ret, wantbranch=lambda t: False)
            r.keep_all_refinements = True
            r.relevant_body = lambda x: x.file().startswith("src/core/server/proc.rs") and not x.derived
            ctx.run(r, ctx.f.coroutine_of(b) or b, what="LocalProc::" + name)
    for b in handler_bodies(ctx, "kill_proc"):
        def on_ret(eng, st, hist, val):
            if not (val.k == "agg" and val.a[1] == "Ok"):
                return
            took = [e for e in hist if e.kind == "call" and e.name in ("remove", "remove_entry", "get_mut") and of_field(e.terms[0], "procs")]
            k = [e for e in hist if e.kind == "call" and e.name == "kill_and_wait"]
            ok = bool(k) and bool(took) and contains(k[-1].terms[0], lambda x: x is took[-1].res) and st.ref.get(k[-1].res) != ("is", "Err")
            eng.oblige("a process reported killed was killed", ok, "handler:kill", "a process is reported killed without having been killed and awaited", st)
            c = unwrap_args(val).get("exit_code")
            good = c is not None and k and (tail(peel(c)) == "code" and contains(c, lambda x: x is k[-1].res))
            eng.oblige("the exit code of a killed process is its own", bool(good), "handler:code", "the exit code reported for a killed process is not its own", st)
        explore(ctx, b, on_ret=on_ret)
    ctx.count("ends of kills", n["kill"], 3)
    ctx.count("awaited ends", n["wait"], 1)


# ---------------------------------------------------------------- status
ENDED = {"poll", "try_wait", "wait", "now_or_never", "poll_unpin", "poll_fn"}


def polled(ctx, clo):
    """the ways a poll of the process can come out: [(ready with something, what is known)]"""
    out = []
    b = ctx.f.body(clo.a[1])
    r = Trace(want=lambda c: False, on_ret=lambda eng, st, h, v: out.append((eng.term(st, v), dict(st.ref))), wantbranch=lambda t: False, opaque=lambda c: c.name in ("poll", "poll_unpin"))
    r.keep_all_refinements = True
    ctx.run(r, b, {1: clo})
    return out


def from_process(ctx, v, me, seen):
    """does a finished status really come from polling the process, and `nothing` only from a process that has not ended?"""
    for t in subterms(v):
        if t.k in ("call", "pure") and tail(t) == "poll_fn" and pieces(t):
            if t in seen:
                return seen[t]
            ok = True
            n = 0
            for val, ref in polled(ctx, pieces(t)[0]):
                n += 1
                pend = [x for x, r in ref.items() if r == ("is", "Pending") and of_field(x, "inner")]
                ready = [x for x, r in ref.items() if r == ("is", "Ready") and of_field(x, "inner")]
                inner = dict(val.a[2]).get("0") if val.k == "agg" and val.a[1] == "Ready" else None
                if inner is None:
                    ok = False      # waits for the end, or cannot be told
                elif inner.k == "agg" and inner.a[1] == "None":
                    ok = ok and bool(pend)
                elif inner.k == "agg" and inner.a[1] == "Some":
                    ok = ok and bool(ready) and contains(inner, lambda x: x is ready[-1])
                else:
                    ok = False
            seen[t] = ok and n > 1
            return seen[t]
        if t.k in ("call", "pure") and tail(t) in ("try_wait", "now_or_never") and of_field(t, "inner"):
            return True
        if t.k in ("call", "pure") and tail(t) in ("poll", "poll_unpin") and of_field(t, "inner"):
            return True
    return False


def check_status(ctx):
    n = {"some": 0, "none": 0, "reply": 0}
    for b in ctx.anchor([x for x in ctx.f.fns("exit_status", self_adt="LocalProc") if not in_tests(x)], "LocalProc::exit_status"):
        me = param(b.locals[1][1] or "self")
        cached = mk("proj", me, ".exit_status")
        seen = {}

        def on_ret(eng, st, hist, val):
            if val is cached:
                if st.ref.get(cached) == ("is", "Some"):
                    return
                val = NONE if st.ref.get(cached) == ("is", "None") else val
            if val is NONE or val.k == "agg" and val.a[1] == "None":
                n["none"] += 1
                src = [t for t, r in st.ref.items() if r[0] == "is" and r[1] in ("None", "Pending") and from_process(ctx, t, me, seen)]
                eng.oblige("alive means that the process has not ended", bool(src), "status:alive", "a process can be said to be alive without having been asked", st)
                return
            d = {}
            if val.k == "agg" and val.a[1] == "Some":
                x = dict(val.a[2]).get("0")
                d = dict(x.a[2]) if x is not None and x.k == "agg" else {}
            n["some"] += 1
            if not d:
                eng.oblige("an end is that of the process", False, "status:some", "a process can be said to have ended without having been asked", st)
                return
            i = d.get("id")
            eng.oblige("the status names the process", i is None or i is mk("proj", me, ".id") or tail(peel(i)) == "id" and contains(i, lambda x: x is me), "status:id", "a status names another process", st)
            s, c = d.get("is_success"), d.get("exit_code")
            failed = [t for t, r in st.ref.items() if r == ("is", "Err") and from_process(ctx, t, me, seen)]
            if s is not None:
                ok = s.k == "c" and not s.a[0] and failed or tail(s) == "success" and from_process(ctx, s, me, seen) or \
                    s.k == "c" and any(tail(t) == "success" and r == ("is", bool(s.a[0])) and from_process(ctx, t, me, seen) for t, r in st.ref.items())
                ok = ok or s.k == "op" and s.a[0] in ("Eq",) and contains(s, lambda t: tail(t) == "code" and from_process(ctx, t, me, seen)) and any(x.k == "agg" and contains(x, lambda y: y.k == "c" and y.a[0] == 0) for x in s.a[1:])
                eng.oblige("success is that of the process", bool(ok), "status:success", "a process can be said to have succeeded without having exited successfully", st)
            if c is not None:
                ok = c.k == "agg" and c.a[1] == "None" and failed or contains(c, lambda t: tail(t) == "code" and from_process(ctx, t, me, seen)) and tail(peel(c)) in ("code",)
                if not ok and c.k == "agg":
                    # rebuilt from the code found
                    ok = any(tail(t) == "code" and r == ("is", c.a[1]) and from_process(ctx, t, me, seen) for t, r in st.ref.items()) and (c.a[1] == "None" or contains(c, lambda t: tail(t) == "code"))
                eng.oblige("the exit code is that of the process", bool(ok), "status:code", "the exit code reported is not that of the process", st)
            w = [e for e in hist if e.kind == "wr" and e.path and e.path[-1] == ".exit_status"]
            if w:
                none = w[-1].terms[0].k == "agg" and w[-1].terms[0].a[1] == "None"
                eng.oblige("what is remembered is what was found", none or contains(w[-1].terms[0], lambda x: x is dict(val.a[2]).get("0")) or w[-1].terms[0] is val, "status:kept", "another status is remembered than the one found", st)
        r = Tasks(want=lambda c: False, on_ret=on_ret, wantbranch=lambda t: False, writes=lambda root, path, val: root[0] == "D")
        r.keep_all_refinements = True
        r.relevant_body = lambda x: x.file().startswith("src/core/server/proc.rs") and not x.derived
        ctx.run(r, ctx.f.coroutine_of(b) or b, what="LocalProc::exit_status")
    for b in handler_bodies(ctx, "read_proc_status"):
        def on_reply(eng, st, hist, val):
            if not (val.k == "agg" and val.a[1] == "Ok"):
                return
            n["reply"] += 1
            d = unwrap_args(val)
            q = [e for e in hist if e.kind == "call" and e.name == "exit_status"]
            r = st.ref.get(q[-1].res) if q else None
            alive, code = d.get("is_alive"), d.get("exit_code")
            if not q or alive is None:
                eng.oblige("a status reply rests on the process", False, "reply:asked", "a status is reported without the process having been asked", st)
                return
            some = some_of(eng, st, alive, q[-1].res)
            eng.oblige("alive exactly if not ended", some is False, "reply:alive", "a process is reported alive although it has ended, or the other way round", st)
            x = mk("proj", mk("proj", mk("proj", q[-1].res, "@Some"), ".0"), ".exit_code")
            if r == ("is", "Some"):
                ok = peel(code) is x
            elif r == ("is", "None"):
                ok = code.k == "agg" and code.a[1] == "None"
            else:
                ok = contains(code, lambda t: t is q[-1].res)
            eng.oblige("the exit code is reported", ok, "reply:code", "the exit code reported is not that of the process", st)
        explore(ctx, b, on_ret=on_reply)
    ctx.count("findings that a process has ended", n["some"], 1)
    ctx.count("findings that it has not", n["none"], 1)
    ctx.count("status replies", n["reply"], 2)


NONE = mk("c", "none")
