"""C13: an ask gets the reply to its own request, once, or an error in time."""
from common import *
from rules.dispatch import peel
from rules.wiring import explore

READONLY = {"len", "is_empty", "contains_key", "keys", "iter", "capacity", "reserve", "shrink_to_fit", "fmt", "default", "new", "with_capacity", "eq",
            "next", "drop", "deref", "deref_mut", "size_hint"}


def is_registry(ev):
    return bool(ev.types) and "HashMap<u32" in ev.types[0].replace("std::collections::", "") and ("FnOnce" in ev.types[0] or "oneshot::Sender" in ev.types[0])


def want(c):
    return not c.local and (c.name in ("send", "try_send") or c.name in ("timeout", "timeout_at", "channel") or "HashMap" in c.path and c.name not in READONLY
                            or c.name in ("recv", "try_recv") and "mpsc" in c.path or c.name in ("call_once", "call_mut", "call"))


def after(hist, i):
    return [e for e in hist[i:] if e.kind == "call"]


def check(ctx):
    ctx.explanation = ("Every path of an ask is followed: its request may only be queued once its id is registered with a callback that hands the reply to the channel "
                       "this ask waits on; the wait is bounded by the client's timeout; every end of the ask either got its callback called or takes the "
                       "registration back. The receiving loop of both kinds of client may only take the registration named by the parent of the message "
                       "just received, must do so for every reply, and hands the callback the reply of that same message.")
    ctx.rules = ["an ask's id is registered before its request is queued, under the id in the request's header",
                 "the registered callback feeds the channel the ask waits on, once, with the reply or the server's generic error",
                 "an ask waits no longer than the client's timeout", "every end of an ask without a reply takes the registration back",
                 "an ask succeeds with nothing but what its callback was given", "each error of an ask names its cause",
                 "each reply received takes the registration under its parent id and nothing else", "a callback gets the reply of the message that named it",
                 "nothing else takes, replaces or drops registrations"]
    closures = check_ask(ctx)
    check_closures(ctx, closures)
    check_loop(ctx)
    check_others(ctx)


def check_ask(ctx):
    n = {"reg": 0, "queued": 0, "wait": 0, "ret": 0, "ok": 0}
    closures = {}

    def regs(hist, eng=None):
        return [e for e in hist if e.kind == "call" and e.name == "insert" and is_registry(e)]

    def on_event(eng, st, hist, ev):
        if ev.kind != "call":
            return
        if is_registry(ev):
            if ev.name == "insert":
                n["reg"] += 1
                if any(e.kind == "call" and e.name in ("send", "try_send") and "mpsc" in e.path for e in hist):
                    eng.report("late", "an ask registers interest after its request was queued", st, ev.span)
                v = ev.terms[2]
                cls = [x for x in subterms(v) if x.k == "agg" and x.a[0] == "closure"]
                if cls:
                    closures.setdefault(cls[0], ev.span)
                elif not is_half(v, "0"):
                    eng.report("callback", "what an ask registers is not a callback of its own", st, ev.span)
            elif ev.name not in ("remove", "remove_entry"):
                eng.report("registry:" + ev.name, "an ask changes registrations by %s" % ev.name, st, ev.span)
            elif not any(e.terms[1] is ev.terms[1] for e in regs(hist)):
                eng.report("takes", "an ask takes back a registration that is not its own", st, ev.span)
        elif ev.name in ("send", "try_send") and "mpsc" in ev.path:
            n["queued"] += 1
            msgs = [x for x in subterms(ev.terms[1]) if x.k == "agg" and path_match(x.a[0], "Msg")]
            if len(msgs) != 1:
                eng.report("queued", "an ask queues something other than one message", st, ev.span)
                return
            head = dict(msgs[0].a[2]).get("header")
            ident = dict(head.a[2]).get("id") if head is not None and head.k == "agg" else mk("proj", head, ".id")
            own = regs(hist)
            if not own:
                eng.report("unregistered", "an ask queues its request before registering interest in the reply", st, ev.span)
            elif not any(peel(e.terms[1]) is peel(ident) for e in own):
                eng.report("id", "an ask registers under an id other than its request's", st, ev.span)
            body = dict(msgs[0].a[2]).get("content")
            if body is None or not (body.k == "agg" and body.a[1] == "Request" and peel(dict(body.a[2])["0"]) is param("request")):
                eng.report("content", "an ask queues something other than the request asked for", st, ev.span)
            if any(e.kind == "call" and e.name in ("send", "try_send") and "mpsc" in e.path and e.res is not ev.res for e in hist):
                eng.report("queues", "an ask queues its request more than once", st, ev.span)
        elif ev.name in ("timeout", "timeout_at"):
            n["wait"] += 1
            if ev.name == "timeout" and peel(ev.terms[0]) is not mk("proj", param("self"), ".timeout"):
                eng.report("timeout", "an ask waits for %s, not for the client's timeout" % show(ev.terms[0], 3), st, ev.span)
            if not is_half(ev.terms[1], "1"):
                eng.report("waits", "what an ask waits for is not its own channel", st, ev.span)

    def is_half(v, i):
        v = peel(v)
        while v.k == "mut" and v.a[3]:
            v = v.a[3][0]
        return v.k == "proj" and v.a[1] == "." + i and tail(v.a[0]) == "channel" and "oneshot" in v.a[0].a[0]

    def on_ret(eng, st, hist, val):
        n["ret"] += 1
        reg = regs(hist)
        if not reg:
            if not err(val, st):
                eng.report("ret", "an ask can succeed without having asked", st)
            return
        k = reg[-1].terms[1]
        taken = [e for e in hist if e.kind == "call" and e.name in ("remove", "remove_entry") and is_registry(e) and e.terms[1] is k]
        waits = [e for e in hist if e.kind == "call" and e.name in ("timeout", "timeout_at")]
        done = [e for e in waits if st.ref.get(e.res) == ("is", "Ok")]
        if not taken and not done:
            eng.report("left", "an ask can end leaving its registration behind", st)
        if err(val, st):
            p = dict(val.a[2]).get("0") if val.k == "agg" else None
            if p is None or p.k != "agg":
                return
            queued = any(e.kind == "call" and e.name in ("send", "try_send") and "mpsc" in e.path for e in hist)
            want = {"EncodingFailed"} if not queued else {"SendFailed"} if not waits else {"Timeout"} if not done else {"CallbackLost"}
            if p.a[1] not in want:
                eng.report("error", "an ask that ends for want of %s reports %s" % ("/".join(sorted(want)), p.a[1]), st)
            return
        n["ok"] += 1
        root, steps = fields_of(peel(val))
        if not done or root is not done[-1].res or list(steps)[:2] != ["@Ok", ".0"]:
            eng.report("answer", "an ask can succeed with something its callback was not given", st)

    def err(val, st):
        return val.k == "agg" and val.a[1] == "Err" or st.ref.get(val) == ("is", "Err")

    for b in ctx.anchor(ctx.f.fns("ask", self_adt="ConnectedClient"), "ConnectedClient::ask"):
        r = Trace(want=want, on_event=on_event, on_ret=on_ret, relevant=want, wantbranch=lambda x: False)
        r.keep_all_refinements = True
        r.runs_closures = lambda c: c.name not in ("spawn", "spawn_local", "spawn_blocking") and "HashMap" not in c.path
        ctx.run(r, ctx.f.coroutine_of(b) or b)
    ctx.count("registrations by an ask", n["reg"], 1)
    ctx.count("requests queued by an ask", n["queued"], 1)
    ctx.count("bounded waits", n["wait"], 1)
    ctx.count("ends of an ask", n["ret"], 3)
    ctx.count("successful ends", n["ok"], 1)
    return closures


def check_closures(ctx, closures):
    """the callback sends once: the server's generic error as a failure, any other reply as it is"""
    for cv, span in closures.items():
        b = ctx.f.body(cv.a[1])
        if b is None:
            ctx.anchor([], "the callback of an ask")
            continue
        reply = mk("param", "the reply")
        seen = {"n": 0}

        def sends(hist):
            return [e for e in hist if e.kind == "call" and e.name == "send" and "oneshot" in e.path]

        def on_event(eng, st, hist, ev):
            if ev.kind != "call" or ev.name != "send" or "oneshot" not in ev.path:
                return
            seen["n"] += 1
            if sends(hist):
                eng.report("callback:twice", "a callback answers more than once", st, ev.span)
            v = peel(ev.terms[0])
            if not (v.k == "proj" and v.a[1] == ".0" and tail(v.a[0]) == "channel"):
                eng.report("callback:channel", "a callback answers on a channel nobody of its ask waits on", st, ev.span)
            x = ev.terms[1]
            r1 = st.ref.get(reply)
            r2 = st.ref.get(mk("proj", mk("proj", reply, "@Error"), ".0"))
            generic = r1 == ("is", "Error") and r2 == ("is", "Generic")
            known = generic or r1 is not None and r1 != ("is", "Error") and (r1[0] == "is" or "Error" in r1[1]) \
                or r2 is not None and r2 != ("is", "Generic") and (r2[0] == "is" or "Generic" in r2[1])
            if x.k != "agg":
                eng.report("callback:value", "what a callback answers cannot be told", st, ev.span)
            elif x.a[1] == "Ok":
                if peel(dict(x.a[2])["0"]) is not reply:
                    eng.report("callback:value", "a callback hands on something other than the reply it was given", st, ev.span)
                if generic:
                    eng.report("callback:generic", "the server's generic error is handed on as a success", st, ev.span)
                elif not known:
                    eng.report("callback:generic", "a reply is handed on as a success without looking for the server's generic error", st, ev.span)
            else:
                f = dict(x.a[2])["0"]
                if not generic or not (f.k == "agg" and f.a[1] == "Failure"):
                    eng.report("callback:failure", "a reply other than the server's generic error is handed on as a failure", st, ev.span)
                elif not contains(f, lambda y: y is reply):
                    eng.report("callback:message", "the server's error is handed on without its message", st, ev.span)

        def on_ret(eng, st, hist, val):
            if not sends(hist):
                eng.report("callback:silent", "a callback can end without answering its ask", st)
        r = Trace(want=want, on_event=on_event, on_ret=on_ret, relevant=want, wantbranch=lambda x: False)
        r.keep_all_refinements = True
        ctx.run(r, b, {1: cv, 2: reply})
        ctx.count("answers of a callback", seen["n"], 1)


def check_loop(ctx):
    n = {"recv": 0, "taken": 0, "called": 0}
    seen = set()

    def on_event(t, eng, st, hist, ev):
        if ev.kind != "call":
            return
        if ev.name in ("recv", "try_recv") and "mpsc" in ev.path:
            # what became of the message before
            d = {k: v for k, v in eng.dropped.items()}
            msg = mk("proj", mk("proj", mk("proj", ev.res, "@Some"), ".0"), ".0")
            par, con = mk("proj", msg, ".parent_header"), mk("proj", msg, ".content")
            n["recv"] += 1
            if d.get(ev.res) == ("is", "Some") and d.get(par) == ("is", "Some") and d.get(con) == ("is", "Reply"):
                last = [i for i, e in enumerate(hist) if e.kind == "call" and e.res is ev.res]
                cur = after(hist, last[-1]) if last else []
                if not any(e.name in ("remove", "remove_entry") and is_registry(e) for e in cur):
                    eng.report("ignored", "a reply can be received without its ask being told", st, ev.span)
            return
        if is_registry(ev):
            seen.add(t.name)
            if ev.name not in ("remove", "remove_entry"):
                eng.report("loop:" + ev.name, "the receiving loop changes registrations by %s" % ev.name, st, ev.span)
                return
            n["taken"] += 1
            root, steps = fields_of(peel(ev.terms[1]))
            if not (root.k == "call" and tail(root) in ("recv", "try_recv")) or "".join(steps[-4:]) != ".parent_header@Some.0.id":
                eng.report("key", "a registration is taken under %s, not under the parent id of the message received" % show(ev.terms[1], 4), st, ev.span)
            elif st.ref.get(mk("proj", strip(ev.terms[1], 4), ".content")) != ("is", "Reply"):
                eng.report("kind", "a registration is taken for a message that is not a reply", st, ev.span)
        elif ev.name in ("call_once", "call_mut", "call") and "dyn" in (ev.types[0] if ev.types else ""):
            takes = [e for e in hist if e.kind == "call" and e.name in ("remove", "remove_entry") and is_registry(e)]
            root = fields_of(peel(ev.terms[0]))[0]
            mine = [e for e in takes if e.res is root]
            if not mine:
                return
            n["called"] += 1
            arg = ev.terms[1]
            if arg.k == "agg" and len(arg.a[2]) == 1:
                arg = arg.a[2][0][1]
            msg = strip(mine[-1].terms[1], 4)
            want_ = mk("proj", mk("proj", mk("proj", msg, ".content"), "@Reply"), ".0")
            if peel(arg) is not want_:
                eng.report("reply", "a callback is given %s, not the reply that named it" % show(arg, 4), st, ev.span)

    def strip(v, k):
        v = peel(v)
        for _ in range(k):
            v = v.a[0] if v.k == "proj" else v
        return v


    def call_alias(eng, st, call):
        c = call.callee
        if c.name in ("recv", "try_recv") and "mpsc" in c.path:
            return mk("call", "Receiver::recv", call.site, ())
        return None
    explore(ctx, on_event=on_event, want=want, entries=[("Client", "connect")], alias=call_alias, ages=lambda c: c.name in ("recv", "try_recv"), keep=True)
    ctx.count("tasks that receive replies", len(seen), 1)
    ctx.count("registrations taken by a reply", n["taken"], 2)
    ctx.count("callbacks called", n["called"], 2)


def check_others(ctx):
    """every other use of the registrations in the crate"""
    uses = 0
    for b in ctx.f.local_bodies():
        for blk in b.blocks:
            t = blk["t"]
            if t["t"] != "call" or t["f"]["k"] != "fn":
                continue
            j = t["f"]["f"]
            a0 = t["a"][0] if t["a"] else None
            if a0 is None or a0["k"] not in ("cp", "mv"):
                continue
            ty = b.locals[a0["p"][0]][0]
            if "HashMap<u32" not in ty.replace("std::collections::", "") or not ("FnOnce" in ty or "oneshot::Sender" in ty):
                continue
            uses += 1
            nm = j["name"]
            ok = nm in READONLY or nm in ("insert", "remove", "remove_entry")
            ctx.oblige("nothing else takes, replaces or drops registrations", ok, "use:%s:%s" % (strip_generics(b.path), nm),
                       "%s changes the registrations by %s" % (strip_generics(b.path), nm), t.get("span", ""))
    ctx.count("uses of the registrations", uses, 2)
