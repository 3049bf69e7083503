"""C12: a reply goes to its sender and names its request."""
from absint import kids
from common import *
from rules.dispatch import ROUTER, is_c, is_router, peel
from rules.wiring import explore, is_socket_io, processor_call

READS = ("recv_from", "read", "read_buf", "recv", "peek")


def is_exec(c):
    return c.local and c.name == "execute" and path_match(c.self_adt, "Executor")


def want(c):
    if c.local:
        return is_exec(c)
    return is_socket_io(c) or c.name in ("send", "try_send", "recv", "try_recv") and "mpsc" in c.path \
        or c.name in ("insert", "get", "get_mut", "entry", "remove") and "HashMap" in c.path


def of_call(v, names, where="mpsc"):
    """the calls of these names a value is made from"""
    return [x for x in subterms(v) if x.k == "call" and tail(x) in names]


def received(v):
    """the one channel receive a value comes out of, if it is only a part of what was received"""
    v = peel(v)
    root, steps = fields_of(v)
    if root.k == "call" and tail(root) in ("recv", "try_recv") and "Receiver" in root.a[0]:
        return root
    return None


def made_from(v):
    out, todo, seen = set(), [v], set()
    while todo:
        x = todo.pop()
        if x in seen or x.k == "old":
            continue
        seen.add(x)
        if x.k == "call" and tail(x) in ("recv", "try_recv") and "Receiver" in x.a[0]:
            out.add(x)
        todo.extend(kids(x))
    return out


def half(v):
    """(socket or stream, which half of it) a read or write uses"""
    v = peel(base_of(v))
    root, steps = fields_of(v)
    return root, tuple(steps)


def base_of(v):
    while v.k == "mut" and v.a[3]:
        v = v.a[3][0]
    return v


def channel(v):
    v = peel(base_of(v))
    root, steps = fields_of(v)
    return root if root.k == "call" and tail(root) in ("channel", "unbounded_channel") else None


def check(ctx):
    ctx.explanation = ("The tasks of both kinds of server are followed from socket to request and from reply to socket. What is executed, the address and the channel a "
                       "request's executor gets must be parts of one received event; the address and channel of such an event must be those of the packet "
                       "read, and the channel's other end must feed the same socket; what is written must be made from one queued reply and go to that "
                       "reply's own address. The executor itself must send, at most once, a message around the computed reply, with the request's header as "
                       "parent, to its own origin.")
    ctx.rules = ["request, origin and reply channel are parts of one received event", "an event carries the address its bytes were read from and a channel that feeds the same socket",
                 "a datagram goes to the address queued with it, a stream reply into the stream it was read from", "each received event is executed exactly once",
                 "at most one reply is sent per request, with its header as parent header, to its origin"]
    n = {"execute": 0, "event": 0, "write": 0}
    inbound, outbound = {}, {}

    def on_event(t, eng, st, hist, ev):
        if ev.kind != "call" or not t.name.startswith("Server"):
            return
        nm = t.name.rsplit(" > ", 1)[-1]
        if ev.name == "execute":
            n["execute"] += 1
            ex = ev.terms[0]
            parts = [("message", ev.terms[-1])]
            if ex.k == "agg":
                org = dict(ex.a[2]).get("origin_sender")
                if org is not None and org.k == "agg":
                    parts += [("address", dict(org.a[2]).get("addr")), ("channel", dict(org.a[2]).get("tx"))]
            roots = set()
            for what, x in parts:
                r = received(x) if x is not None else None
                if r is None:
                    eng.report("execute:%s:%s" % (nm, what), "%s executes a request whose %s is not the one received with it (%s)" % (nm, what, show(x, 3) if x is not None else "?"), st, ev.span)
                else:
                    roots.add(r)
            if len(parts) < 3:
                eng.report("execute:%s" % nm, "%s executes a request with an origin that cannot be told" % nm, st, ev.span)
            if len(roots) > 1:
                eng.report("execute:%s" % nm, "%s executes a request with the origin of another one" % nm, st, ev.span)
            if any(e.kind == "call" and e.name == "execute" for e in since_recv(hist)):
                eng.report("again:%s" % nm, "%s executes a request more than once" % nm, st, ev.span)
        elif ev.name in ("recv", "try_recv") and "mpsc" in ev.path:
            last = [e for e in hist if e.kind == "call" and e.res is ev.res]
            if last and "event_loop" in nm or last and any(e.kind == "call" and e.name == "execute" for e in hist):
                cur = hist[hist.index(last[-1]):]
                if not any(e.kind == "call" and e.name == "execute" for e in cur):
                    eng.report("skip:%s" % nm, "%s drops a request without executing it" % nm, st, ev.span)
        elif ev.name in ("send", "try_send") and "mpsc" in ev.path:
            msg = ev.terms[1] if len(ev.terms) > 1 else None
            if msg is not None and msg.k == "agg" and len(msg.a[2]) == 3:
                event(t, eng, st, hist, ev, nm, [x for _, x in msg.a[2]])
            elif msg is not None:
                forwarded(eng, st, ev, nm, msg)
        elif ev.name == "insert" and "HashMap" in ev.path and len(ev.terms) == 3:
            ch = channel(ev.terms[2])
            if ch is not None:
                inbound.setdefault(ch, set())
                a = fields_of(peel(ev.terms[1]))[0]
                connected.append((ch, a, nm, ev.span))
        elif ev.name in ("send_to", "write", "write_all", "write_buf", "send", "write_vectored") and is_io(ev):
            n["write"] += 1
            sock, which = half(ev.terms[0])
            src = made_from(ev.terms[1])
            if len(src) != 1:
                eng.report("write:%s" % nm, "%s writes something not made from one queued message" % nm, st, ev.span)
                return
            r = next(iter(src))
            if ev.name == "send_to":
                a = received(ev.terms[2])
                if a is not r:
                    eng.report("address:%s" % nm, "%s sends a message to an address other than its own" % nm, st, ev.span)
            ch = channel(args_of(r)[0])
            if ch is not None:
                outbound.setdefault(ch, set()).add(sock)
    connected = []

    def event(t, eng, st, hist, ev, nm, parts):
        reads = [x for p in parts for x in subterms(p) if x.k == "call" and tail(x) in ("recv_from", "read", "read_buf", "recv") and "Receiver" not in x.a[0]]
        if not reads:
            return
        n["event"] += 1
        rd = [e for e in hist if e.kind == "call" and e.name in READS and is_io(e)]
        last = rd[-1].res if rd else None
        sock = half(args_of(reads[0])[0])[0]
        chans = [channel(p) for p in parts if channel(p) is not None]
        msgs = [p for p in parts if contains(p, lambda x: tail(x) == "process")]
        addrs = [p for p in parts if p not in msgs and channel(p) is None]
        if len(chans) != 1 or len(msgs) != 1 or len(addrs) != 1:
            eng.report("event:%s" % nm, "%s hands on an event whose parts cannot be told" % nm, st, ev.span)
            return
        if any(tail(x) == "process" and args_of(x) and args_of(x)[-1].k == "agg" and not args_of(x)[-1].a[2] for x in subterms(msgs[0]) if x.k in ("call", "pure")):
            return      # nothing at all makes no message
        if last is not None and not contains(msgs[0], lambda x: x is last):
            eng.report("event:%s:data" % nm, "%s hands on a message that is not made from what was read last" % nm, st, ev.span)
        root, steps = fields_of(peel(addrs[0]))
        datagram = tail(reads[0]) == "recv_from"
        if datagram and root is not reads[0]:
            eng.report("event:%s:address" % nm, "%s names %s as the origin of a datagram, not the address it came from" % (nm, show(addrs[0], 3)), st, ev.span)
        if not datagram and root is not fields_of(halved(sock))[0]:
            eng.report("event:%s:address" % nm, "%s names %s as the origin of a message, not the peer of the stream" % (nm, show(addrs[0], 3)), st, ev.span)
        inbound.setdefault(chans[0], set()).add(sock)

    def halved(sock):
        """the stream a pair of halves was split from"""
        while sock.k in ("call", "pure") and tail(sock) in ("split", "into_split") and args_of(sock):
            sock = args_of(sock)[0]
        return sock

    def forwarded(eng, st, ev, nm, msg):
        """a message sent on along a connection looked up by address"""
        look = [x for x in subterms(ev.terms[0]) if x.k in ("call", "pure") and tail(x) in ("get", "get_mut") and len(args_of(x)) > 1]
        b = received(msg)
        if look or b is not None:
            a = received(args_of(look[0])[1]) if look else None
            if a is None or a is not b:
                eng.report("forward:%s" % nm, "%s sends a message along the connection of another address" % nm, st, ev.span)

    def is_io(ev):
        return "mpsc" not in ev.path and "HashMap" not in ev.path

    def since_recv(hist):
        i = 0
        for j, e in enumerate(hist):
            if e.kind == "call" and e.name in ("recv", "try_recv") and "mpsc" in e.path:
                i = j
        return hist[i:]

    explore(ctx, on_event=on_event, want=want, ages=lambda c: c.name in ("recv", "try_recv", "next", "poll_next") or is_socket_io(c))
    for ch, socks in inbound.items():
        if not socks:
            continue
        out = outbound.get(ch, set())
        site = ch.a[1] if len(ch.a) > 1 else ""
        ctx.oblige("the replies to what is read from a socket are written to that socket", ctx.inconclusive or socks == out, "channel:%s" % where(ctx, ch),
                   "replies to messages read from %s go to %s" % ("/".join(sorted(show(x, 2) for x in socks)), "/".join(sorted(show(x, 2) for x in out)) or "nowhere"))
    for ch, a, nm, span in connected:
        for sock in inbound.get(ch, ()):
            ctx.oblige("a connection is kept under its peer's address", fields_of(halved(sock))[0] is a, "connection:" + nm,
                       "%s keeps a connection under an address other than its peer's" % nm, span)
    ctx.count("executions by an event loop", n["execute"], 3)
    ctx.count("events handed to an event loop", n["event"], 3)
    ctx.count("writes to a socket", n["write"], 2)
    ctx.count("channels between a socket's loops", len([c for c in inbound if inbound[c]]), 2)
    check_executor(ctx)


def where(ctx, ch):
    return strip_generics(str(ch.a[1]).rsplit("#", 1)[0]) if len(ch.a) > 1 else show(ch, 2)


def check_executor(ctx):
    n = {"sent": 0, "ret": 0, "silent": 0}

    def w(c):
        return is_router(c) or (c.name in ("send", "try_send") and not c.local and "mpsc" in c.path)

    def on_event(eng, st, hist, ev):
        if ev.kind != "call" or ev.name not in ("send", "try_send"):
            if ev.kind == "call" and ev.name == ROUTER:
                content = mk("proj", mk("proj", param("msg"), ".content"), "@Request")
                if len(ev.terms) < 2 or peel(ev.terms[1]) is not mk("proj", content, ".0"):
                    eng.report("request", "what is executed is not the request of the message", st, ev.span)
                if not contains(ev.terms[0], lambda x: x is param("state")):
                    eng.report("state", "a request is not executed on the server's state", st, ev.span)
                if any(e.kind == "call" and e.name == ROUTER for e in hist):
                    eng.report("twice", "a request is executed twice", st, ev.span)
            return
        n["sent"] += 1
        if any(e.kind == "call" and e.name in ("send", "try_send") for e in hist):
            eng.report("replies", "more than one reply is sent to a request", st, ev.span)
        runs = [e for e in hist if e.kind == "call" and e.name == ROUTER]
        if not runs:
            eng.report("early", "a reply is sent before the request was executed", st, ev.span)
            return
        org = mk("proj", param("self"), ".origin_sender")
        tx = peel(base_of(ev.terms[0]))
        if tx is not mk("proj", org, ".tx"):
            eng.report("channel", "a reply is sent on %s, not on the channel the request came in on" % show(tx, 3), st, ev.span)
        data = ev.terms[1]
        if data.k == "agg" and len(data.a[2]) == 2:
            parts = [x for _, x in data.a[2]]
            addr = mk("proj", org, ".addr")
            if not any(peel(x) is addr for x in parts):
                eng.report("origin", "a reply is addressed to something other than the request's origin", st, ev.span)
            data = [x for x in parts if peel(x) is not addr][:1]
            data = data[0] if data else ev.terms[1]
        msgs = [x for x in subterms(data) if x.k == "agg" and path_match(x.a[0], "Msg")]
        if len(msgs) != 1:
            eng.report("message", "what is sent as a reply is not one message", st, ev.span)
            return
        m = dict(msgs[0].a[2])
        parent = m.get("parent_header")
        head = mk("proj", param("msg"), ".header")
        if parent is None or not (parent.k == "agg" and parent.a[1] == "Some" and peel(dict(parent.a[2])["0"]) is head):
            eng.report("parent", "a reply does not name the request it answers as its parent", st, ev.span)
        if contains(m.get("header"), lambda x: x is head):
            eng.report("header", "a reply reuses the header of its request", st, ev.span)
        c = m.get("content")
        rep = dict(c.a[2]).get("0") if c is not None and c.k == "agg" and c.a[1] == "Reply" else None
        if rep is None or not same_reply(rep, runs[0].res, st):
            eng.report("reply", "what is sent is not the reply computed for the request", st, ev.span)

    def same_reply(rep, res, st):
        rep = peel(rep)
        if rep is res:
            return True
        r = st.ref.get(res)
        # rebuilt from its own parts
        return rep.k == "agg" and r is not None and r == ("is", rep.a[1]) and all(contains(x, lambda y: y is res) for _, x in rep.a[2])

    def on_ret(eng, st, hist, val):
        n["ret"] += 1
        runs = [e for e in hist if e.kind == "call" and e.name == ROUTER]
        sends = [e for e in hist if e.kind == "call" and e.name in ("send", "try_send")]
        if not runs or sends:
            return
        r = st.ref.get(runs[0].res)
        if r == ("is", "Ignore"):
            n["silent"] += 1
            return
        if any(rr == ("is", "Err") and tail(k) == "to_vec" for k, rr in st.ref.items()):
            return
        eng.report("unsent", "a request can be executed without its reply being sent", st)

    def sent_ignore(eng, st, hist, ev):
        on_event(eng, st, hist, ev)
        if ev.kind == "call" and ev.name in ("send", "try_send"):
            runs = [e for e in hist if e.kind == "call" and e.name == ROUTER]
            r = st.ref.get(runs[0].res) if runs else None
            if r is None or r == ("is", "Ignore"):
                eng.report("ignore", "the absence of a reply may be sent as a reply", st, ev.span)
    bodies = ctx.anchor(ctx.f.fns("execute", self_adt="Executor"), "Executor::execute")
    for b in bodies:
        r = Trace(want=w, on_event=sent_ignore, on_ret=on_ret, opaque=lambda c: is_router(c) or c.local and c.name in ("to_vec",) and path_match(c.self_adt, "Msg")
                  or c.local and c.name == "update_origin_last_touched", wantbranch=lambda x: False, relevant=w)
        r.relevant_body = lambda bb: bb.file() in ("src/core/server/action/mod.rs", "src/core/msg/mod.rs", "src/core/msg/content/mod.rs") and not bb.derived \
            and bb.name not in ("fmt",)
        r.keep_all_refinements = True
        ctx.run(r, ctx.f.coroutine_of(b) or b)
    ctx.count("executors", len(bodies), 2)
    ctx.count("replies sent", n["sent"], 2)
    ctx.count("requests left without a reply", n["silent"], 2)
