"""The tasks of a node: what `listen` and `connect` build and spawn, followed from
the configuration to the loops that own the sockets."""
from common import *
from rules.c30 import peel
from absint import agg

ENTRIES = (("Server", "listen"), ("Server", "cloneable_listen"), ("Client", "connect"))


def is_spawn(c):
    return c.name in ("spawn", "spawn_local", "spawn_blocking") and not c.local


def processor_call(c, which):
    return c.name == "process" and path_match(c.self_adt, which)


def is_opaque(c):
    return (processor_call(c, "InputProcessor") or processor_call(c, "OutputProcessor")
            or (c.name == "execute" and c.local and path_match(c.self_adt, "Executor"))
            or (c.name in ("evict_files", "evict_procs") and c.local))


def is_socket_io(c):
    """calls that move bytes between the node and a socket"""
    s = c.path + " " + c.trait + " " + c.self_adt
    if c.local:
        return False
    return c.name in ("send_to", "send", "recv_from", "recv", "read", "write", "write_all", "read_exact", "read_to_end",
                      "write_buf", "read_buf", "poll_send_to", "poll_write", "accept", "try_send", "write_vectored", "peek",
                      "peek_from", "recv_buf", "write_all_buf", "start_send", "send_all")


class Task:
    def __init__(self, name, body, args):
        self.name = name
        self.body = body
        self.args = args


def explore(ctx, on_event=None, on_ret=None, want=None, entries=ENTRIES, extra_relevant=None, on_branch=False, max_states=60000,
            opaque=None, relevant_body=None, ages=None, alias=None, keep=False):
    """run `on_event(task, eng, st, hist, ev)` over the entries and every task they spawn"""
    f = ctx.f
    todo = []
    for adt, fn in entries:
        for b in ctx.anchor(f.fns(fn, self_adt=adt), "%s::%s" % (adt, fn)):
            todo.append(Task("%s::%s" % (adt, fn), f.coroutine_of(b), None))
    done = set()
    spawned = {}
    w = want or (lambda c: False)

    def wanted(c):
        return is_spawn(c) or w(c)

    def relevant(c):
        return wanted(c) or (extra_relevant(c) if extra_relevant else False)
    ntasks = 0
    while todo:
        t = todo.pop(0)
        if t.body is None:
            continue
        ntasks += 1

        def ev_hook(eng, st, hist, ev, t=t):
            if ev.kind == "call" and ev.name in ("spawn", "spawn_local", "spawn_blocking"):
                for x in ev.terms:
                    for y in tops(x):
                        key = (y.a[1], y)
                        if key in done:
                            continue
                        done.add(key)
                        b = f.body(y.a[1])
                        nm = b.path if b else y.a[1]
                        nm = strip_generics(nm).replace("::{closure#0}", "").rsplit("::", 1)[-1]
                        todo.append(Task(t.name + " > " + nm, b, {1: y}))
            if on_event is not None:
                on_event(t, eng, st, hist, ev)

        def ret_hook(eng, st, hist, val, t=t):
            if on_ret is not None:
                on_ret(t, eng, st, hist, val)
        r = Trace(want=wanted, on_event=ev_hook, on_ret=ret_hook, opaque=opaque or is_opaque, relevant=relevant,
                  wantbranch=on_branch if callable(on_branch) else None if on_branch else (lambda x: False), max_states=max_states)
        if relevant_body is not None:
            r.relevant_body = relevant_body
        r.max_hist = 12
        r.ages = ages
        r.alias = alias
        if keep:
            r.keep_all_refinements = True
        ctx.run(r, t.body, t.args, what=t.name)
    ctx.counts["tasks of a node"] = ntasks
    return ntasks


def tops(x, d=6):
    if x.k == "agg":
        if x.a[0] == "coroutine":
            return [x]
        if x.a[0] == "closure":
            return [x]
        if d:
            out = []
            for _, y in x.a[2]:
                out += tops(y, d - 1)
            return out
    return []


def conf(name):
    """a setting of the configuration the entry was called on"""
    return mk("proj", mk("param", "self"), "." + name)


def find_aggs(v, adt):
    return [x for x in subterms(v) if x.k == "agg" and path_match(x.a[0], adt)]


WANT = {"verifier": ("InputProcessor", "authenticator"), "decrypter": ("InputProcessor", "bicrypter"),
        "signer": ("OutputProcessor", "authenticator"), "encrypter": ("OutputProcessor", "bicrypter"),
        "packet_ttl": ("InputProcessor", "packet_ttl")}


def changed(v, src):
    """is the setting calculated with before it is used?"""
    def other(x):
        if x.k == "op":
            return True
        return x.k in ("call", "pure") and x.a[0].rsplit("::", 1)[-1] in (
            "mul", "div", "add", "sub", "rem", "checked_mul", "checked_add", "checked_sub", "checked_div", "saturating_add", "saturating_sub",
            "saturating_mul", "mul_f64", "mul_f32", "div_f64", "div_f32", "max", "min", "clamp", "from_secs", "from_millis", "from_micros",
            "from_nanos", "from_secs_f64")
    return contains(v, lambda x: other(x) and contains(x, lambda z: z is src))


def check_wires(ctx, roles):
    """every processor a node's tasks own is built around the configured authenticator / bicrypter"""
    seen = {}
    size_seen = []

    def on_event(t, eng, st, hist, ev):
        if ev.kind != "call" or ev.name != "spawn":
            return
        for x in ev.terms:
            for role in roles:
                adt, setting = WANT[role] if role in WANT else ("OutputProcessor", None)
                for a in find_aggs(x, adt):
                    if role == "size":
                        seen.setdefault(role, set()).add(t.name)
                        size_seen.append((t.name, a))
                        continue
                    src = conf(setting)
                    hits = [n for n, y in a.a[2] if contains(y, lambda z: z is src)]
                    seen.setdefault(role, set()).add(t.name)
                    if not hits:
                        eng.report("wiring:%s:%s" % (role, t.name),
                                   "the %s built by %s does not use the configured %s" % (adt, t.name, setting), st, ev.span)
                    elif any(changed(y, src) for _, y in a.a[2]):
                        eng.report("wiring:%s:changed:%s" % (role, t.name),
                                   "the %s built by %s uses another %s than the configured one" % (adt, t.name, setting), st, ev.span)
    explore(ctx, on_event=on_event)
    for role in roles:
        ctx.count("tasks owning a configured " + role, len(seen.get(role, ())), 3)
    return size_seen


def check_reads(ctx):
    """what the loops hand on is what the input processor returned for the bytes just read"""
    f = ctx.f
    n = {"process": 0, "handed": 0}

    def want(c):
        return processor_call(c, "InputProcessor") or (c.name in ("send", "try_send") and "mpsc" in c.path) \
            or is_socket_io(c)

    def on_event(t, eng, st, hist, ev):
        if ev.kind != "call":
            return
        if ev.name == "process":
            n["process"] += 1
            # only bytes that came from the socket
            ios = [e for e in hist if e.kind == "call" and e.name in ("recv_from", "recv", "read", "read_buf")]
            if not ios:
                eng.report("reads:%s" % t.name, "data is processed that was not read from the socket", st, ev.span)
        elif ev.name in ("send", "try_send") and "mpsc" in ev.path:
            # a message handed to the event loop of the node
            msg = ev.terms[1] if len(ev.terms) > 1 else None
            if msg is None or not any("Receiver" in p for p in ()) and not decoded(msg):
                return
            n["handed"] += 1
            if not contains(msg, lambda x: x.k == "call" and x.a[0] == "InputProcessor::process"):
                eng.report("handed:%s" % t.name, "a message is delivered that did not come out of the input processor", st, ev.span)

    def decoded(m):
        return m.k == "agg" and len(m.a[2]) == 3
    explore(ctx, on_event=on_event, want=want)
    ctx.count("uses of the input processor by a node's loops", n["process"], 3)
    ctx.count("messages handed to a node's event loop", n["handed"], 3)


def check_node_config(ctx, settings):
    pass


OPS = {"Signer": "sign", "Verifier": "verify", "Encrypter": "encrypt", "Decrypter": "decrypt"}


def check_clones(ctx, traits=("Signer", "Verifier", "Encrypter", "Decrypter")):
    """a clone of an authenticator or bicrypter is the same one"""
    f = ctx.f
    kinds = {strip_generics(b.self_adt) for t in traits for b in f.fns(OPS[t], trait=t)}
    n = 0
    for b in f.fns("clone", trait="Clone"):
        if strip_generics(b.self_adt) not in kinds:
            continue
        n += 1
        if b.derived:
            continue

        def on_ret(eng, st, hist, val, b=b):
            v = peel(val)
            if v is param("self") or v.k != "agg":
                return
            for x, y in v.a[2]:
                if not contains(y, lambda z: z is mk("proj", param("self"), "." + x)):
                    eng.report("clone:%s" % b.self_adt.rsplit("::", 1)[-1], "a clone of %s does not share its %s" % (b.self_adt.rsplit("::", 1)[-1], x), st)
        ctx.run(Trace(want=lambda c: False, on_ret=on_ret, wantbranch=lambda t: False), b, what="clone of " + b.self_adt)
    ctx.counts["clones of authenticators and bicrypters"] = n
