"""C11: every request is answered by its own handler with its own kind of reply."""
from common import *
from rules.dispatch import *


def check(ctx):
    ctx.explanation = ("Every path through the request router is followed with the operations kept as single steps. On a path for one request kind, the only "
                       "operation called must be that kind's own, on the server's state and that request's arguments, and what is returned must be that kind's "
                       "reply around the operation's own result, or an error reply around the operation's own error.")
    ctx.rules = ["a request kind calls its own operation, once, with its own arguments", "success becomes that kind's reply with the operation's result",
                 "failure becomes an error reply with the operation's error", "every request kind has a route"]
    done = {}
    errs = {}

    def on_ret(eng, st, hist, val):
        if known_zero(st):
            return
        kind = kind_of(st)
        if kind is None:
            if not is_reply(val, "Error"):
                eng.report("unrouted", "a request is answered without looking at its kind", st)
            return
        ops = [e for e in hist if e.kind == "call" and e.name in OPERATIONS and e.name != ROUTER]
        if kind in NESTED:
            done.setdefault(kind, []).append(val)
            if ops:
                eng.report("route:" + kind, "%s calls the operation %s itself" % (kind, ops[0].name), st, ops[0].span)
            if not is_reply(val, kind):
                eng.report("reply:" + kind, "%s is answered by something other than its own reply" % kind, st)
            return
        if kind in UNANSWERED:
            done.setdefault(kind, []).append(val)
            if ops:
                eng.report("route:" + kind, "%s calls the operation %s" % (kind, ops[0].name), st, ops[0].span)
            return
        if kind not in TABLE:
            eng.report("unknown:" + kind, "request kind %s has no operation of its own" % kind, st)
            return
        want, reply = TABLE[kind]
        wrong = [e for e in ops if e.name != want]
        if wrong:
            eng.report("route:" + kind, "%s calls the operation %s" % (kind, wrong[0].name), st, wrong[0].span)
            return
        if kind == "Custom" and not ops:
            if is_reply(val, "Ignore") and no_handler(st):
                return
            eng.report("route:Custom", "a custom request is not given to the custom handler", st)
            return
        if len(ops) != 1:
            eng.report("route:" + kind, "%s calls its operation %s times" % (kind, "no" if not ops else "several"), st)
            return
        op = ops[0]
        check_args(eng, st, kind, op)
        res = op.res
        out = st.ref.get(res)
        fails = out == ("is", "Err")
        if fails:
            errs.setdefault(kind, []).append(val)
            if not is_reply(val, "Error"):
                eng.report("error:" + kind, "a failed %s is answered by %s, not an error" % (kind, show(val, 2)), st, op.span)
            elif not carries_error(val, res):
                eng.report("error:" + kind, "the error reply of a failed %s does not carry the operation's error" % kind, st, op.span)
            elif kind != "Custom" and payload(val) is not None and payload(val).k == "agg" and payload(val).a[1] == "Generic":
                eng.report("error:" + kind, "the error reply of a failed %s loses the kind of the operation's error" % kind, st, op.span)
            return
        done.setdefault(kind, []).append(val)
        if not is_reply(val, reply):
            eng.report("reply:" + kind, "a successful %s is answered by %s instead of %s" % (kind, show(val, 1), reply), st, op.span)
            return
        p = payload(val)
        if kind == "Heartbeat":
            return
        ok = eng_proj_ok(res)
        if p is None or peel(p) not in (ok, res):
            eng.report("content:" + kind, "the reply to %s does not carry the operation's result" % kind, st, op.span)

    def check_args(eng, st, kind, op):
        args = list(op.terms)
        if kind in ("Heartbeat", "Version", "Capabilities"):
            return
        if not args or not contains(args[0], lambda x: x is param("state")):
            eng.report("state:" + kind, "%s does not work on the server's state" % kind, st, op.span)
        own = mk("proj", mk("proj", param("request"), "@" + kind), ".0")
        if len(args) < 2 or peel(args[1]) is not own:
            eng.report("args:" + kind, "%s is not called with the arguments of the request" % op.name, st, op.span)

    explore_router(ctx, on_ret=on_ret)
    kinds = None
    for p, a in ctx.f.adts.items():
        if p.endswith("::request::Request"):
            kinds = variants(a)
    if ctx.anchor(kinds, "the request type"):
        for k in kinds:
            ok = ctx.inconclusive or k in done
            ctx.oblige("%s has a route to its own reply" % k, ok, "missing:" + k, "no path answers %s with a reply of its own" % k)
            if k in TABLE and TABLE[k][0] not in ("heartbeat", "version", "capabilities", "internal_debug"):
                ctx.oblige("a failed %s is answered by its error" % k, ctx.inconclusive or k in errs, "noerror:" + k, "the failure of %s is not reported" % k)
        ctx.count("request kinds", len(kinds), 20)
    check_conversions(ctx)


def no_handler(st):
    return any(r == ("is", "None") and contains(k, lambda x: x.k == "proj" and x.a[1] == ".custom_handler") for k, r in st.ref.items())


def eng_proj_ok(res):
    return mk("proj", mk("proj", res, "@Ok"), ".0")


def carries_error(val, res):
    e = mk("proj", mk("proj", res, "@Err"), ".0")
    return contains(val, lambda x: x is e) or contains(val, lambda x: x is res)


def variants(a):
    return [x[0] for x in a.variants]


def check_conversions(ctx):
    """errors become error replies that say what happened"""
    n = 0
    for b in ctx.f.fns("from"):
        if not (path_match(b.self_adt, "ReplyError") or path_match(b.self_adt, "Reply")) or b.derived:
            continue
        n += 1

        def on_ret(eng, st, hist, val, b=b):
            arg = param(b.locals[1][1] or "x")
            if not contains(val, lambda x: x is arg):
                eng.report("convert:" + b.path, "an error reply does not carry the error it is made from", st)
            if path_match(b.self_adt, "Reply") and not (val.k == "agg" and val.a[1] == "Error"):
                eng.report("convert:" + b.path, "an error is turned into something other than an error reply", st)
            if "io::Error" in b.locals[1][0]:
                inner = [x for x in subterms(val) if x.k == "agg" and path_match(x.a[0], "ReplyError")]
                if any(x.a[1] != "Io" for x in inner):
                    eng.report("convert:" + b.path, "an i/o error loses its kind", st)
        r = Trace(want=lambda c: False, on_ret=on_ret)
        r.relevant_body = lambda bb: bb.file().startswith("src/core/msg/content/reply")
        ctx.run(r, b)
    ctx.count("conversions of errors into replies", n, 2)
