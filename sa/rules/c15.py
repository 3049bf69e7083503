"""C15: nesting of sequences and batches is bounded."""
from common import *
from rules.dispatch import *


def check(ctx):
    ctx.explanation = ("Every call of the request router in the crate is found; the ones reached from the router itself must pass a depth that is at least one "
                       "lower than the router's own, computed on a path that knows the router's own not to be zero, and with the depth at zero the router must "
                       "return an error without calling any operation or itself. The depth a request starts with must be the executor's, and the "
                       "executor's must be what it was built with, all the way from the constant the event loops use.")
    ctx.rules = ["a nested routing passes at most the own depth minus one", "nothing is executed unless the depth is known not to be used up",
                 "a request at the limit is answered by an error", "a request starts with the executor's depth, which is the configured maximum"]
    seen = {"zero": 0, "nested": set(), "handled": 0}
    d = param("max_depth")

    def on_event(eng, st, hist, ev):
        if ev.kind != "call":
            return
        if ev.name == ROUTER:
            depth(eng, st, ev.terms, ev.span)
        if not known_nonzero(st):
            eng.report("limit:" + ev.name, "%s is executed although the depth limit may be used up" % ev.short, st, ev.span)
        seen["handled"] += 1

    def depth(eng, st, terms, span):
        seen["nested"].add(span)
        x = terms[2] if len(terms) > 2 else None
        ok = x is not None and lower(x, d)
        if not ok:
            eng.report("depth", "a nested request is executed with %s levels left, not with one less" % (show(x, 3) if x is not None else "?"), st, span)

    def on_ret(eng, st, hist, val):
        if known_zero(st):
            seen["zero"] += 1
            if not is_reply(val, "Error"):
                eng.report("limit:reply", "a request beyond the depth limit is answered by %s, not by an error" % show(val, 1), st)
    def spy(eng, st, call):
        for t in call.terms:
            for x in subterms(t):
                if x.k == "agg" and x.a[0] in ("closure", "coroutine"):
                    work.append((x, known_nonzero(st)))
    # closures and coroutines made on the way are followed with what they captured
    work = []

    def hook(eng, st, hist, val):
        on_ret(eng, st, hist, val)
        for x in subterms(val):
            if x.k == "agg" and x.a[0] in ("closure", "coroutine"):
                work.append((x, known_nonzero(st)))
    explore_router(ctx, on_event=on_event, on_ret=hook, spy=spy, max_hist=0)
    done = set()
    while work:
        x, ok = work.pop()
        if x in done:
            continue
        done.add(x)
        b = ctx.f.body(x.a[1])
        if b is None or not b.id:
            continue

        def on_ev(eng, st, hist, ev, ok=ok):
            if ev.kind != "call":
                return
            if ev.name == ROUTER:
                depth(eng, st, ev.terms, ev.span)
            if not ok and not known_nonzero(st):
                eng.report("limit:" + ev.name, "%s is executed although the depth limit may be used up" % ev.short, st, ev.span)

        def on_r(eng, st, hist, val, ok=ok):
            for y in subterms(val):
                if y.k == "agg" and y.a[0] in ("closure", "coroutine") and y not in done:
                    work.append((y, ok))
        r = RouterTrace(want=lambda c: is_operation(c) or is_router(c), on_event=on_ev, on_ret=on_r, opaque=lambda c: is_operation(c) or is_router(c))
        r.relevant_body = router_relevant
        r.max_hist = 0
        r.spy = spy
        args = {1: x}
        for i in range(2, b.argc + 1):
            args[i] = param("elem%d" % i)
        ctx.run(r, b, args)
    ctx.count("nested routings", len(seen["nested"]), 1)
    ctx.oblige("a request at the depth limit is refused", ctx.inconclusive or seen["zero"], "limit:none", "no path of the router refuses a request because of its depth")
    check_callers(ctx, seen["nested"])
    check_start(ctx)


def lower(x, d):
    x = unconv(x)
    if x.k == "proj" and x.a[1] == ".0" and x.a[0].k == "proj" and x.a[0].a[1] == "@Some" and tail(x.a[0].a[0]) == "checked_sub":
        a = args_of(x.a[0].a[0])
        return unconv(a[0]) is d and a[1].k == "c" and a[1].a[0] >= 1
    if tail(x) in ("saturating_sub",):
        a = args_of(x)
        return unconv(a[0]) is d and a[1].k == "c" and a[1].a[0] >= 1
    b, off = linear(x)
    return b is d and off <= -1


def check_callers(ctx, nested):
    """who else calls the router, and with what depth"""
    f = ctx.f
    names = {b.id for b in f.fns(ROUTER)}
    inner = set()
    for b in f.fns(ROUTER):
        inner |= reach(f, [b.id], virtual=False)
    out = []
    for b in f.local_bodies(derived=True):
        if b.id in inner or "::tests::" in b.path:
            continue
        for cj in calls_of(b):
            if cj.get("r", cj["id"]) in names:
                out.append(b)
                break
    ctx.anchor(out, "a caller of the router")


def check_start(ctx):
    """from the constant of the event loops to the router"""
    n = {"exec": 0, "new": 0}
    for b in ctx.anchor(ctx.f.fns("execute", self_adt="Executor"), "Executor::execute"):
        own = mk("proj", param("self"), ".max_depth")

        def on_event(eng, st, hist, ev):
            if ev.kind == "call" and ev.name == ROUTER:
                n["exec"] += 1
                x = unconv(ev.terms[2]) if len(ev.terms) > 2 else None
                base, off = linear(x) if x is not None else (None, 0)
                if not (base is not None and base is own and off <= 0):
                    eng.report("start", "a request is executed with %s levels, not with the executor's" % (show(x, 3) if x is not None else "?"), st, ev.span)
        r = Trace(want=is_router, opaque=is_router, on_event=on_event)
        r.relevant_body = lambda bb: bb.file() == "src/core/server/action/mod.rs" and not is_router_body(bb)
        ctx.run(r, ctx.f.coroutine_of(b) or b)
    for b in ctx.anchor(ctx.f.fns("new", self_adt="Executor"), "Executor::new"):
        def on_ret(eng, st, hist, val):
            n["new"] += 1
            x = unconv(dict(val.a[2]).get("max_depth")) if val.k == "agg" and "max_depth" in dict(val.a[2]) else None
            if x is None:
                return
            base, off = linear(x)
            if not (base.k == "param" and off <= 0 or base.k in ("c", "const")):
                eng.report("configured", "an executor's depth limit is %s" % show(x, 3), st)
        r = Trace(want=lambda c: False, on_ret=on_ret)
        r.relevant_body = lambda bb: bb.file() == "src/core/server/action/mod.rs"
        ctx.run(r, b)
    ctx.count("executions of a top-level request", n["exec"], 2)
    ctx.count("constructors of an executor", n["new"], 2)
    # what the event loops build executors with
    from rules.wiring import explore
    limits = []

    def want(c):
        return c.local and c.name == "execute" and path_match(c.self_adt, "Executor")

    def on_ev(t, eng, st, hist, ev):
        if ev.kind != "call" or ev.name != "execute":
            return
        e = ev.terms[0] if ev.terms else None
        x = unconv(dict(e.a[2])["max_depth"]) if e is not None and e.k == "agg" and "max_depth" in dict(e.a[2]) else None
        if x is None:
            eng.report("loop", "%s executes requests with an executor whose depth limit is not known" % t.name, st, ev.span)
            return
        limits.append(x)
        root, _ = fields_of(x)
        if not (x.k in ("c", "const") or root is param("self")):
            eng.report("loop", "%s starts requests with a depth limit of %s" % (t.name, show(x, 3)), st, ev.span)
    explore(ctx, on_event=on_ev, want=want)
    ctx.count("event loops executing requests", len(limits), 2)


def is_router_body(b):
    return b.name == ROUTER or ("::" + ROUTER + "::") in b.path
