"""The command line: from the parsed options to the client or server that is started."""
from common import *
from rules.c30 import peel

NET = re.compile(r"(tokio|std|net2|mio|socket2)::.*\b(net|sys)\b|^net2|^mio|^socket2")
LAUNCH = ("listen", "cloneable_listen", "connect")


def present(ctx):
    """is there a command line in this feature configuration? (the main one has it)"""
    return ctx.config == "all" or any(b.file().startswith("src/cli/") for b in ctx.f.local_bodies())


def entry(ctx):
    bs = [b for b in ctx.f.fns("run") if b.file() == "src/cli/mod.rs"]
    ctx.anchor(bs, "the entry point of the command line")
    return bs[:1]


def relevant(x):
    return not x.derived and (x.file().startswith(("src/cli/mod.rs", "src/cli/builder", "src/cli/opts", "src/core/transport/crypto/key", "src/core/transport/crypto/aes",
                                                   "src/core/transport/crypto/mod", "src/core/transport/crypto/impls", "src/core/transport/auth", "src/core/transport/net"))
                              or x.file() in ("src/core/server/mod.rs", "src/core/client/mod.rs"))


def is_launch(c):
    return c.local and c.name in LAUNCH and (path_match(c.self_adt, "Server") or path_match(c.self_adt, "Client"))


def is_net(c):
    """does the call use the network?"""
    return is_launch(c) or not c.local and c.name in ("lookup_host", "bind", "connect", "to_socket_addrs", "connect_timeout", "from_std", "accept")


def after(c):
    return c.local and (c.name.startswith(("ask", "format_")) or c.name in ("wait", "run_schema"))


def empty_len(v):
    """the length of something that was created empty"""
    if v.k in ("call", "pure") and tail(v) == "len" and args_of(v):
        x = peel(args_of(v)[0])
        return x.k in ("call", "pure") and x.a[0] in ("String::new", "Vec::new") or x.k == "c" and x.a[0] == ""
    return False


def feasible(st):
    """rules out paths on which a comparison with a variant contradicts what the value was found to be"""
    for t, r in st.ref.items():
        if r[0] == "is" and t.k == "op" and len(t.a) == 3 and t.a[0] == "Eq" and bool(r[1]) and any(empty_len(x) and y.k == "c" and y.a[0] for x, y in (t.a[1:], t.a[:0:-1])):
            return False
        if r[0] == "is" and empty_len(t) and r[1]:
            return False
        if r[0] == "is" and t.k in ("call", "pure") and t.a[0] in ("PartialEq::eq", "PartialEq::ne"):
            a = args_of(t)
            if len(a) != 2:
                continue
            for x, y in (a, (a[1], a[0])):
                if y.k == "agg" and y.a[1] and not y.a[2]:
                    k = st.ref.get(x)
                    if k is None:
                        continue
                    same = (r[1] is True or r[1] == 1) == t.a[0].endswith("eq")
                    if k[0] == "is" and (k[1] == y.a[1]) != same:
                        return False
                    if k[0] == "not" and y.a[1] in k[1] and same:
                        return False
    return True


def option(st, name):
    """the option of that name (a term), as far as the path has looked at it"""
    out = None
    for t in st.ref:
        for x in (t,) + tuple(subterms(t)):
            if x.k == "proj" and x.a[1] == "." + name:
                if x.a[0].k == "proj" and x.a[0].a[1] == ".opts" or out is None:
                    out = x
    return out


def setting(v, name):
    """a field of a struct value, through updates"""
    v = peel(v)
    while v.k == "upd":
        for p, y in v.a[1]:
            if p == "." + name or p == name:
                return y
        v = v.a[0]
    if v.k == "agg":
        d = dict(v.a[2])
        return d.get(name)
    return None


def launches(ctx, on_net, want=None, max_states=1000000):
    """on_net(side, eng, st, hist, ev) for each use of the network while starting; a path ends at the launch"""
    for b in entry(ctx):
        def on_event(eng, st, hist, ev):
            if ev.kind == "call" and feasible(st):
                on_net(eng, st, hist, ev)
        r = Trace(want=lambda c: is_net(c) or want is not None and want(c), on_event=on_event, opaque=after, wantbranch=lambda t: False, max_states=max_states)
        r.keep_all_refinements = True
        r.max_hist = 20
        r.stop = is_launch
        r.views = ("iter_mut", "index_mut", "get_mut", "first_mut", "last_mut", "retain", "drain")
        r.relevant_body = relevant
        ctx.run(r, ctx.f.coroutine_of(b) or b, what="cli::run")
