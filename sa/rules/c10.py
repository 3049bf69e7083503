"""C10: the loops of a node outlive the failure of any one message."""
from common import *
from rules.wiring import ENTRIES, explore

ENDS = {"recv": "None", "next": "None", "accept": "Err", "read": "Err", "recv_from": "Err"}


def is_source(c):
    """calls outside the crate that wait for the next message, connection or packet"""
    if c.local:
        return False
    if c.name in ("recv", "recv_many") and "mpsc" in c.path:
        return True
    if c.name == "accept" and "Listener" in c.path + c.self_adt:
        return True
    return c.name in ("read", "read_buf", "recv_from", "recv", "peek") and ("net" in c.path or "AsyncRead" in c.path + c.trait or "ReadHalf" in c.path)


def src_name(ev):
    return ev.name if ev.name in ("accept", "recv_from") else "recv" if "mpsc" in ev.path else "read"


def about_source(t):
    """is the branch on the result of a source itself, or on a size it gave?"""
    if t.k == "op" and len(t.a) == 3:
        return about_source(t.a[1]) or about_source(t.a[2])
    t = unconv(t)
    while t.k in ("proj", "discr"):
        t = t.a[0]
    return t.k == "call" and tail(t) in ("recv", "recv_many", "accept", "read", "read_buf", "recv_from", "peek")


def loop_code(b):
    """code that decides whether a loop goes on"""
    return b.file().startswith(("src/core/event/", "src/core/transport/wire/tcp", "src/core/transport/wire/udp", "src/core/transport/wire/mod.rs", "src/core/client/inbound",
                                "src/core/server/mod.rs", "src/core/client/mod.rs"))


def last_source(hist):
    out = None
    for e in hist:
        if e.kind == "call" and e.name in ("recv", "recv_many", "accept", "read", "read_buf", "recv_from", "peek"):
            out = e
    return out


def ended(st, hist, ev):
    """why the source has nothing more to give on this path, or None"""
    res = ev.res
    want = ENDS[src_name(ev)]
    for e in hist:
        if e.kind != "br":
            continue
        t = e.terms[0]
        if t is res and e.res == want:
            return want
        if src_name(ev) == "read" and zero_size(t, e.res, res):
            return "end of stream"
    r = st.ref.get(res)
    if r is not None and r == ("is", want):
        return want
    return None


def zero_size(t, val, res):
    """does the branch tell that nothing was read?"""
    def size(x):
        x = unconv(x)
        return x.k == "proj" and contains(x, lambda y: y is res)
    if t.k == "op" and len(t.a) == 3:
        a, b = t.a[1], t.a[2]
        op = t.a[0]
        if op == "Eq" and val is True:
            return size(a) and b.k == "c" and b.a[0] == 0 or size(b) and a.k == "c" and a.a[0] == 0
        if op == "Ne" and val is False:
            return size(a) and b.k == "c" and b.a[0] == 0
        if op == "Lt" and val is False:
            return a.k == "c" and a.a[0] == 0 and size(b)
        if op == "Lt" and val is True:
            return size(a) and b.k == "c" and b.a[0] == 1
        if op in ("Gt",) and val is False:
            return size(a) and b.k == "c" and b.a[0] == 0
    return size(t) and val == 0 and not isinstance(val, bool)


def closed_channel(st, hist):
    """did handing on a message to the node's own event loop fail (its channel is closed)?"""
    for k, r in st.ref.items():
        if r == ("is", "Err") and k.k == "call" and tail(k) in ("send", "try_send") and "Sender" in k.a[0]:
            s = args_of(k)[0]
            while s.k in ("call", "pure") and tail(s) == "clone":
                s = args_of(s)[0]
            if not contains(s, lambda x: x.k in ("call", "pure") and tail(x) in ("get", "get_mut", "recv", "entry", "values_mut")):
                return True
    return False


def check(ctx):
    ctx.explanation = ("Every task a listening server or a connected client spawns is followed from its entry; on every path on which one of its loops "
                       "ends, the last thing it waited for must have been exhausted (channel closed, accept or socket read failed, stream ended), and no "
                       "path waits again for a channel that is closed or a stream that has ended.")
    ctx.rules = ["a loop returns only if its channel is closed, its socket fails or its stream ends", "a loop does not wait again on an exhausted source",
                 "every socket and channel of a node is served by a spawned loop"]
    ctx.assumptions = ["an I/O error of the socket's own read or accept is a failure of the socket"]
    kinds = {}
    noend = {}
    bare = {}

    def on_event(t, eng, st, hist, ev):
        if ev.kind != "call" or ev.name in ("spawn", "spawn_local", "spawn_blocking"):
            return
        e0 = t.name.split(" > ")[0]
        kinds.setdefault(e0, set()).add(src_name(ev))
        noend.setdefault(t.name, 0)
        for e in hist:
            if e.kind == "call" and e.res is ev.res and e.short == ev.short:
                why = ended(st, hist[hist.index(e):], e)
                if why and src_name(ev) in ("recv", "read") and (why != "Err" or True):
                    eng.report("spin:%s" % short_name(t), "%s waits again for what is exhausted (%s), forever" % (short_name(t), why), st, ev.span)

    def on_ret(t, eng, st, hist, val):
        e = last_source(hist)
        if e is None:
            bare.setdefault(t.name, []).append(st)
            return
        noend[t.name] = noend.get(t.name, 0) + 1
        i = max(i for i, x in enumerate(hist) if x is e)
        if ended(st, hist[i:], e):
            return
        if closed_channel(st, hist[i:]):
            return
        eng.report("ends:%s" % short_name(t), "%s ends although %s could still give it something" % (short_name(t), e.short), st)

    for e in ENTRIES:
        explore(ctx, on_event=on_event, on_ret=on_ret, want=is_source, on_branch=about_source, entries=(e,), relevant_body=loop_code)
    for t in sorted(noend):
        if t in bare:
            ctx.violation("ends:%s" % t.rsplit(" > ", 1)[-1], "%s can end without waiting for anything" % t.rsplit(" > ", 1)[-1])
    ctx.count("loops of a node", len(noend), 8)
    for e, want in (("Server::listen", {"recv", "recv_from"}), ("Server::cloneable_listen", {"recv", "recv_from", "accept", "read"}),
                    ("Client::connect", {"recv", "recv_from", "read"})):
        ctx.oblige("%s serves %s" % (e, ", ".join(sorted(want))), ctx.inconclusive or want <= kinds.get(e, set()), "unserved:" + e,
                   "%s spawns no loop for %s" % (e, ", ".join(sorted(want - kinds.get(e, set())))))


def short_name(t):
    return t.name.rsplit(" > ", 1)[-1]
