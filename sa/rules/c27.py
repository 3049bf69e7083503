"""C27: cleanup runs for as long as the server does."""
from common import *
from rules.handlers import in_tests

SAME = {"clone", "cloned", "to_owned", "copied", "borrow", "as_ref", "from", "into", "deref", "borrow_mut", "as_mut", "deref_mut"}
EVICTS = ("evict_files", "evict_procs")
WAITS = {"delay_for", "sleep", "delay_until", "sleep_until", "tick", "timeout", "delay"}
SPAWNS = {"spawn", "spawn_local", "spawn_on"}
FIELDS = ("cleanup_interval", "file_ttl", "proc_ttl", "dead_proc_ttl", "packet_ttl")
# what the documentation of the options says, in seconds
DEFAULTS = {"file_ttl": 150, "proc_ttl": 300, "dead_proc_ttl": 30, "cleanup_interval": 60}
STATE = "a server state"


def peel(v):
    while True:
        if v.k in ("call", "pure") and tail(v) in SAME and args_of(v):
            v = args_of(v)[0]
        elif v.k == "mut":
            v = mut_base(v)
        elif v.k == "upd":
            v = v.a[0]
        else:
            return v


def is_state_call(c, *names):
    return c.local and c.name in names and path_match(c.self_adt, "ServerState")


class Life(Trace):
    """every new server state gets a name of its own"""
    max_hist = 60

    def classify(self, eng, st, call):
        c = call.callee
        if is_state_call(c, "new"):
            k = sum(1 for e in st.auto if e.kind == "mark")
            if k > 4:
                k = 4
            v = mk("call", STATE, "c27#%d" % k, ())
            st.auto = st.auto + (Ev("mark", str(k), "", "", "", "", tuple(call.terms), v, call.span, ()),)
            return ("value", v)
        return super().classify(eng, st, call)


def server_file(b):
    return b.file().startswith(("src/core/server/mod.rs", "src/core/server/state.rs", "src/core/server/listening.rs")) and not b.derived


def check(ctx):
    ctx.explanation = ("Starting to listen is followed from the configuration to the running server, on every transport: on each path that ends in a server, a task must have been started that "
                       "works on the very state the server uses; on none that fails. That task is followed round by round, whatever function it is made of: it must go on exactly as long as the "
                       "state says so, evict files and processes in every round, and wait the configured interval between rounds.")
    ctx.rules = ["a server that listens has a cleanup task on its own state, with its own interval", "a server that fails to listen has none", "each round evicts both files and processes, to the end",
                 "rounds are apart by the interval", "rounds go on exactly until shutdown", "shutting down marks the state, and nothing else does", "what is not configured has its documented default",
                 "every task of the server works on the same state"]
    check_listen(ctx)
    check_running(ctx)
    check_defaults(ctx)


def tasks_of(ctx, ev):
    """the async bodies a spawn starts"""
    out = []
    for t in ev.terms[-1:]:
        if t.k == "agg" and t.a[0] == "coroutine":
            b = ctx.f.body(t.a[1])
            if b is not None:
                out.append((t, b))
    return out


def evicts(ctx, b):
    cache = ctx.__dict__.setdefault("_evicting", {})
    if b.id not in cache:
        ids = {x.id for n in EVICTS for x in ctx.f.fns(n, self_adt="ServerState")}
        cache[b.id] = bool(ids & reach(ctx.f, [b.id], virtual=False))
    return cache[b.id]


def check_listen(ctx):
    n = {"servers": 0, "loops": 0}
    entries = [b for b in ctx.f.local_bodies() if path_match(b.self_adt, "Server") and not in_tests(b) and b.pub and ctx.f.coroutine_of(b) is not None]
    ctx.anchor([b for b in entries if b.name in ("listen", "cloneable_listen")], "Server::{listen,cloneable_listen}")
    done = {}
    for b in entries:
        name = b.name

        def spawned(hist):
            for e in hist:
                if e.kind == "call" and e.name in SPAWNS and not e.self_adt.startswith("core::"):
                    for t, body in tasks_of(ctx, e):
                        yield e, t, body

        def on_ret(eng, st, hist, val, name=name):
            cleaning = [(e, t, body) for e, t, body in spawned(hist) if evicts(ctx, body) and not is_event_loop(ctx, body)]
            if val.k == "agg" and val.a[1] == "Err":
                eng.oblige("a server that fails to listen does not clean up", not cleaning, name + ":leak", "%s can fail and leave a cleanup task behind that nothing can end" % name, st)
                return
            d = dict(val.a[2]) if val.k == "agg" else {}
            srv = d.get("0")
            f = dict(srv.a[2]) if srv is not None and srv.k == "agg" else {}
            if "state" not in f:
                eng.oblige("the server is known", False, name + ":server", "%s returns a server whose state is not known" % name, st)
                return
            n["servers"] += 1
            own = peel(f["state"])
            ok = len(cleaning) >= 1
            eng.oblige("a server that listens cleans up", ok, name + ":none", "%s can start a server without a cleanup task" % name, st)
            if len(cleaning) > 1:
                eng.report(name + ":twice", "%s starts more than one cleanup task" % name, st)
            for e, t, body in spawned(hist):
                other = [x for x in subterms(t) if x.k == "call" and x.a[0] == STATE and x is not own]
                eng.oblige("every task works on the server's state", not other, name + ":state:" + owner(ctx, body), "%s starts %s on another state than the server's" % (name, owner(ctx, body)), st, e.span)
            for e, t, body in cleaning:
                key = (name, t)
                if key not in done:
                    done[key] = True
                    n["loops"] += 1
                    check_loop(ctx, name, t, body, own)
        r = Life(want=lambda c: c.name in SPAWNS and not c.local or c.name in ("for_udp_socket", "for_tcp_listener"), on_ret=on_ret, wantbranch=lambda t: False,
                 opaque=lambda c: c.local and (c.name.startswith("for_") and path_match(c.self_adt, "AddrEventManager") or path_match(c.self_adt, "Wire") or is_state_call(c, *EVICTS)))
        r.relevant_body = server_file
        r.keep_all_refinements = True
        ctx.run(r, ctx.f.coroutine_of(b), what="Server::" + name)
    ctx.count("ways to a listening server", n["servers"], 2)
    ctx.count("cleanup tasks", n["loops"], 2)


def owner(ctx, body):
    return owner_path(ctx.f, body).rsplit("::", 1)[-1]


def is_event_loop(ctx, body):
    """does the task also serve messages?"""
    ids = {x.id for x in ctx.f.fns("execute") if not in_tests(x)}
    return bool(ids & reach(ctx.f, [body.id], virtual=False))


def check_loop(ctx, name, task, body, own):
    interval = None

    def is_interval(v):
        v = peel(v)
        return v.k == "proj" and v.a[1] == ".cleanup_interval"

    def waits_interval(e):
        if e.name == "tick":
            return contains(e.terms[0], lambda x: x.k in ("call", "pure") and tail(x) in ("interval", "interval_at") and is_interval(args_of(x)[-1]))
        if e.name in ("delay_until", "sleep_until"):
            t = peel(e.terms[0])
            return t.k in ("call", "pure", "op") and contains(t, lambda x: tail(x) == "now") and any(is_interval(x) for x in subterms(t))
        return e.name in ("delay_for", "sleep") and is_interval(e.terms[0])

    def awaited(hist, e):
        return any(x.kind == "aw" and contains(x.terms[0], lambda y: y is e.res) for x in hist)

    def since_wait(hist):
        i = -1
        for k, e in enumerate(hist):
            if e.kind == "call" and e.name in WAITS:
                i = k
        return hist[i + 1:], (hist[i] if i >= 0 else None)

    def running(st, hist):
        """the latest answer to whether the server runs, since the last wait"""
        rec, _ = since_wait(hist)
        out = None
        for e in rec:
            if e.kind == "call" and e.name == "is_running":
                out = st.ref.get(e.res)
        return out

    def on_event(eng, st, hist, ev):
        if ev.kind != "call":
            return
        if ev.name in EVICTS or ev.name == "is_running":
            eng.oblige("cleanup works on the server's state", peel(ev.terms[0]) is own, "%s:loop:state" % name, "the cleanup task of %s works on another state than the server's" % name, st, ev.span)
        if ev.name in EVICTS:
            eng.oblige("cleanup stops with the server", running(st, hist) == ("is", True), "loop:stopped:" + ev.name, "%s is called without the server having been found running in this round" % ev.name, st, ev.span)
            rec, w = since_wait(hist)
            again = any(e.kind == "call" and e.name == ev.name for e in rec)
            eng.oblige("rounds are apart", not again, "loop:spin:" + ev.name, "%s is called again without a wait in between" % ev.name, st, ev.span)
            if w is not None:
                eng.oblige("waits are waited for", awaited(hist, w), "loop:wait", "the wait between rounds is not waited for", st, ev.span)
        if ev.name in WAITS:
            eng.oblige("rounds are apart by the interval", waits_interval(ev), "loop:interval", "the cleanup task waits by %s for something else than the configured interval" % ev.short, st, ev.span)
            rec, _ = since_wait(hist)
            for x in EVICTS:
                es = [e for e in rec if e.kind == "call" and e.name == x]
                eng.oblige("each round evicts both kinds", bool(es) and awaited(rec, es[-1]), "loop:" + x, "a round of cleanup can go by without %s having finished" % x, st, ev.span)

    def on_ret(eng, st, hist, val):
        eng.oblige("rounds go on until shutdown", running(st, hist) == ("is", False), "loop:end", "the cleanup task can end although the server has not been shut down", st)
    w = lambda c: is_state_call(c, "is_running", *EVICTS) or not c.local and c.name in WAITS
    r = Life(want=w, opaque=lambda c: is_state_call(c, "is_running", *EVICTS), on_event=on_event, on_ret=on_ret, wantbranch=lambda t: False)
    r.relevant_body = server_file
    r.keep_all_refinements = True
    ctx.run(r, body, {1: task}, what="the cleanup task of " + name)
    ctx.count("loops followed", r.nev, 4)


def check_running(ctx):
    """running until shutdown"""
    n = {"flag": 0}
    flag = lambda v: v.k == "proj" and v.a[1] == ".running"
    for b in ctx.anchor(ctx.f.fns("new", self_adt="ServerState"), "ServerState::new"):
        def on_ret(eng, st, hist, val):
            d = dict(val.a[2]) if val.k == "agg" else {}
            v = d.get("running")
            ok = v is not None and v.k in ("call", "pure") and args_of(v) and args_of(v)[0].k == "c" and args_of(v)[0].a[0] in (True, 1)
            n["flag"] += 1
            eng.oblige("a new server runs", ok, "running:new", "a new server's state does not say that it runs", st)
        ctx.run(Trace(want=lambda c: False, on_ret=on_ret, wantbranch=lambda t: False), b, what="ServerState::new")
    for b in ctx.anchor(ctx.f.fns("is_running", self_adt="ServerState"), "ServerState::is_running"):
        def on_ret(eng, st, hist, val):
            v = val
            n["flag"] += 1
            ok = v.k in ("call", "pure") and tail(v) == "load" and flag(args_of(v)[0])
            if v.k == "c":
                ok = any(tail(t) == "load" and flag(args_of(t)[0]) and r == ("is", bool(v.a[0])) for t, r in st.ref.items() if t.k in ("call", "pure"))
            eng.oblige("the state says whether the server runs", ok, "running:is", "is_running does not report the running flag", st)
        ctx.run(Trace(want=lambda c: not c.local, on_ret=on_ret), b, what="ServerState::is_running")
    for b in ctx.anchor(ctx.f.fns("shutdown", self_adt="ServerState"), "ServerState::shutdown"):
        def on_ret(eng, st, hist, val):
            es = [e for e in hist if e.kind == "call" and e.terms and flag(e.terms[0]) and e.name in ("store", "swap", "fetch_and")]
            n["flag"] += 1
            ok = bool(es) and es[-1].terms[1].k == "c" and es[-1].terms[1].a[0] in (False, 0)
            eng.oblige("shutdown ends running", ok, "running:shutdown", "shutdown does not clear the running flag", st)
        ctx.run(Trace(want=lambda c: not c.local, on_ret=on_ret), b, what="ServerState::shutdown")
    for b in ctx.anchor(ctx.f.fns("shutdown", self_adt="ListeningServer"), "ListeningServer::shutdown"):
        def on_ret(eng, st, hist, val):
            es = [e for e in hist if e.kind == "call" and e.name == "shutdown" and e.terms and contains(e.terms[0], lambda v: v.k == "proj" and v.a[1] == ".state")]
            n["flag"] += 1
            eng.oblige("shutdown ends running", bool(es), "server:shutdown", "shutting down a server does not reach its state", st)
        sd = lambda c: is_state_call(c, "shutdown")
        ctx.run(Trace(want=sd, opaque=sd, on_ret=on_ret), b, what="ListeningServer::shutdown")
    # nothing else changes the flag, or ends the running
    ends = {b.id for b in ctx.f.fns("shutdown", self_adt="ServerState")}
    allowed = {b.id for b in ctx.f.fns("shutdown", self_adt="ListeningServer")}
    for i in ends:
        for c in callers(ctx.f).get(i, ()):
            b = ctx.f.body(c)
            if c not in allowed and not in_tests(b) and not (b.pub and b.name == "shutdown"):
                seen = reach(ctx.f, [x.id for x in ctx.f.local_bodies() if x.kind == "fn" and x.pub and x.name in ("listen", "cloneable_listen") and path_match(x.self_adt, "Server")], virtual=False)
                if c in seen:
                    ctx.violation("running:ended:" + owner_path(ctx.f, b), "%s shuts the server down by itself" % owner_path(ctx.f, b), b.span)
    for b in ctx.f.local_bodies():
        if in_tests(b) or b.kind != "fn" or not b.file().startswith("src/core/server/state.rs"):
            continue
        if b.name in ("new", "default", "shutdown", "is_running") or b.trait:
            continue

        def on_event(eng, st, hist, ev, b=b):
            if ev.kind == "call" and ev.name in ("store", "swap", "fetch_and", "fetch_or", "fetch_xor", "compare_and_swap", "compare_exchange", "fetch_update") and ev.terms and flag(ev.terms[0]):
                if not called_only_by(ctx, b, ("shutdown",)):
                    eng.report("running:" + b.name, "%s changes whether the server runs" % b.name, st, ev.span)
        ctx.run(Trace(want=lambda c: not c.local and "tomic" in c.path, on_event=on_event, wantbranch=lambda t: False), ctx.f.coroutine_of(b) or b, what="ServerState::" + b.name)
    ctx.count("running flag", n["flag"], 4)


def called_only_by(ctx, b, names):
    cs = [ctx.f.body(c) for c in callers(ctx.f).get(b.id, ())]
    return bool(cs) and not b.pub and all(c.name in names for c in cs)


def seconds(ctx, v, deep=0):
    """the duration a constant stands for, in seconds"""
    v = peel(v)
    if v.k in ("call", "pure") and "Duration" in v.a[0] and args_of(v):
        x = number(args_of(v)[0])
        if x is None:
            return None
        return {"from_secs": x, "from_millis": x / 1000, "from_micros": x / 1e6, "from_secs_f64": x, "from_secs_f32": x}.get(tail(v))
    bodies = [b for b in ctx.f.local_bodies(derived=True) if b.kind in ("const", "static") and const_name(v) and ("::" + strip_generics(b.path)).endswith("::" + const_name(v))]
    out = {value_of_const(ctx, b, deep) for b in bodies} if deep < 3 else set()
    return out.pop() if len(out) == 1 else None


def const_name(v):
    """the name of a constant a term stands for"""
    s = v.a[0] if v.k in ("c", "const", "sym", "static", "pure", "call") and isinstance(v.a[0], str) else ""
    return s if re.match(r"^[A-Z][A-Z0-9_]*$", s.rsplit("::", 1)[-1]) else ""


def number(v):
    v = peel(v)
    if v.k == "c" and isinstance(v.a[0], (int, float)):
        return v.a[0]
    if v.k == "op" and len(v.a) == 3:
        x, y = number(v.a[1]), number(v.a[2])
        if x is not None and y is not None:
            return {"Mul": x * y, "Add": x + y, "Sub": x - y}.get(v.a[0].replace("WithOverflow", "").replace("Unchecked", ""))
    if v.k == "op" and v.a[0].startswith("Cast") and len(v.a) > 1:
        x = number(v.a[1])
        return None if x is None else int(x)
    if v.k == "proj" and v.a[1] == ".0":
        return number(v.a[0])
    return None


def value_of_const(ctx, b, deep):
    out = []

    def on_ret(eng, st, hist, val):
        out.append(seconds(ctx, val, deep + 1))
    ctx.run(Trace(want=lambda c: False, on_ret=on_ret, wantbranch=lambda t: False), b, what=b.path)
    return out[0] if len(set(out)) == 1 else None


def check_defaults(ctx):
    n = {"built": 0}
    found = {}
    for b in ctx.anchor([x for x in ctx.f.fns("build", self_adt="ServerBuilder") if not in_tests(x)], "ServerBuilder::build"):
        def on_ret(eng, st, hist, val):
            d = dict(val.a[2]).get("0") if val.k == "agg" and val.a[1] == "Ok" else None
            f = dict(d.a[2]) if d is not None and d.k == "agg" else {}
            if not f:
                return
            n["built"] += 1
            for k in FIELDS:
                v = peel(f[k])
                given = st.ref.get(mk("proj", param("self"), "." + k))
                if v.k == "proj" and v.a[1] == ".0" and v.a[0].k == "proj" and v.a[0].a[1] == "@Some":
                    ok = v.a[0].a[0].k == "proj" and v.a[0].a[0].a[1] == "." + k
                    eng.oblige("what is configured is kept", ok, "built:" + k, "a server is built with another %s than the one configured" % k, st)
                elif k in DEFAULTS:
                    found.setdefault(k, {}).setdefault(v, st)
                    if given == ("is", "Some"):
                        eng.report("built:" + k, "a server is built with another %s than the one configured" % k, st)
        r = Trace(want=lambda c: False, on_ret=on_ret, wantbranch=lambda t: False)
        r.keep_all_refinements = True
        eng = ctx.run(r, b, what="ServerBuilder::build")
    for k, vs in sorted(found.items()):
        for v in vs:
            x = seconds(ctx, v)
            ctx.oblige("what is not configured has its documented default", x == DEFAULTS[k], "default:" + k, "the default of %s is %s seconds, %s are documented" % (k, x, DEFAULTS[k]))
    for b in ctx.f.fns("default", self_adt="ServerState"):
        def on_default(eng, st, hist, val):
            es = [e for e in hist if e.kind == "mark"]
            if not es:
                return
            for k, v in zip(("file_ttl", "proc_ttl", "dead_proc_ttl"), es[-1].terms):
                x = seconds(ctx, v)
                eng.oblige("what is not configured has its documented default", x == DEFAULTS[k], "state:default:" + k, "the state's default of %s is %s seconds, %s are documented" % (k, x, DEFAULTS[k]), st)
        ctx.run(Life(want=lambda c: False, on_ret=on_default, wantbranch=lambda t: False), b, what="ServerState::default")
    ctx.count("ways to build a server", n["built"], 2)
    ctx.count("defaults", len(found), 4)
