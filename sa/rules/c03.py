"""C03: what crosses the wire went through the encrypter; what is delivered went through the decrypter."""
from common import *
from rules.wiring import check_clones, explore, check_wires, check_reads, is_socket_io, processor_call


def is_encode(c):
    return c.name == "encode" and path_match(c.self_adt, "Encoder")


def crypt(c, trait, name):
    return path_match(strip_generics(c.trait), trait) and c.name == name


def of_call(v, *shorts):
    return [x for x in subterms(v) if x.k == "call" and x.a[0] in shorts]


def check_output(ctx):
    f = ctx.f
    n = {"encrypt": 0, "encode": 0, "ok": 0}
    for b in ctx.anchor(f.fns("process", self_adt="OutputProcessor"), "OutputProcessor::process"):
        data = param(b.locals[2][1] or "arg2")

        def on_event(eng, st, hist, ev):
            if ev.kind != "call":
                return
            if ev.name == "encrypt":
                n["encrypt"] += 1
                if path_of(ev.terms[0])[0] is not param("self"):
                    eng.report("encrypter", "the encrypter used is not the node's own", st, ev.span)
                if ev.terms[1] is not data:
                    eng.report("plaintext", "what is encrypted is not the whole message", st, ev.span)
            elif ev.name == "encode":
                n["encode"] += 1
                a = ev.terms[1]
                d = field(a, "data") if a.k == "agg" else a
                if not (d.k == "proj" and d.a[1] == ".0" and d.a[0].k == "proj" and d.a[0].a[1] == "@Ok"
                        and d.a[0].a[0].k == "call" and d.a[0].a[0].a[0] == "Encrypter::encrypt"):
                    eng.report("unencrypted", "packets are made of data that is not the result of the encrypter", st, ev.span)

        def on_ret(eng, st, hist, val):
            if is_variant(val, "Err"):
                return
            n["ok"] += 1
            out = field(val, "0") if is_variant(val, "Ok") else val
            els = [x for _, xs in mut_elems(out) for x in xs]
            for x in els + ([out] if not els else []):
                if x.k == "call" and x.a[0].endswith("::new") and not x.a[2] or x.k == "pure" and not list(kids(x)):
                    continue
                if not of_call(x, "Encoder::encode"):
                    eng.report("output", "the output is not made of the packets of the encoder", st)
                    return
                if derives_plain(x, data):
                    eng.report("plaintext-out", "the message itself is put out, not only its encryption", st)
                    return
            if not els and out.k == "call" and not of_call(out, "Encoder::encode") and not of_call(out, "Encrypter::encrypt"):
                pass
        r = Trace(want=lambda c: is_encode(c) or crypt(c, "Encrypter", "encrypt"), on_event=on_event, on_ret=on_ret, opaque=is_encode,
                  wantbranch=lambda x: False)
        r.max_hist = 4
        ctx.run(r, b)
    ctx.count("encryptions", n["encrypt"], 1)
    ctx.count("packetisations", n["encode"], 1)
    ctx.count("outputs", n["ok"], 1)


def derives_plain(v, data):
    """the plaintext other than through the encrypter"""
    todo, seen = [v], set()
    while todo:
        x = todo.pop()
        if x is data:
            return True
        if x in seen or (x.k == "call" and x.a[0] == "Encrypter::encrypt"):
            continue
        seen.add(x)
        todo.extend(kids(x))
    return False


def check_input(ctx):
    f = ctx.f
    n = {"some": 0}
    for b in ctx.anchor(f.fns("process", self_adt="InputProcessor"), "InputProcessor::process"):
        data = param(b.locals[2][1] or "arg2")

        def on_event(eng, st, hist, ev):
            if ev.kind == "call" and ev.name == "decrypt":
                if path_of(ev.terms[0])[0] is not param("self"):
                    eng.report("decrypter", "the decrypter used is not the node's own", st, ev.span)

        def on_ret(eng, st, hist, val):
            if is_variant(val, "Ok") and not is_variant(field(val, "0"), "None"):
                v = field(val, "0")
                if is_variant(v, "Some"):
                    v = field(v, "0")
                n["some"] += 1
                if not delivered(v):
                    eng.report("undecrypted", "data is delivered that is not the result of the decrypter", st)
            elif not val.k == "agg":
                pass
        r = Trace(want=lambda c: crypt(c, "Decrypter", "decrypt"), on_event=on_event, on_ret=on_ret,
                  relevant=lambda c: crypt(c, "Decrypter", "decrypt"), wantbranch=lambda x: False)
        r.max_hist = 2
        ctx.run(r, b)
    ctx.count("deliveries", n["some"], 1)


def delivered(v):
    while v.k == "proj" and v.a[1] in (".0", "@Ok", "@Some"):
        v = v.a[0]
    return v.k == "call" and v.a[0] == "Decrypter::decrypt"


WRITES = {"send_to", "send", "write", "write_all", "write_buf", "try_send", "write_vectored", "write_all_buf", "try_write",
          "try_send_to", "poll_send_to", "poll_write"}


def is_write(c):
    return c.name in WRITES and is_socket_io(c) and "mpsc" not in c.path and "oneshot" not in c.path \
        and "process" not in c.path and ("Udp" in c.path or "Tcp" in c.path or "Write" in c.path or "Write" in c.trait
                                         or "net::" in c.path)


def check_writes(ctx):
    """every byte written to a socket comes out of the output processor"""
    f = ctx.f
    sites = {}

    def on_event(t, eng, st, hist, ev):
        if ev.kind != "call" or not is_write(ev_c(ev)):
            return
        if ev.trait and "Child" in " ".join(ev.types):
            return
        buf = ev.terms[1] if len(ev.terms) > 1 else ev.terms[0]
        sites.setdefault(ev.span, 0)
        sites[ev.span] += 1
        if not of_call(buf, "OutputProcessor::process"):
            eng.report("socket:%s" % t.name, "%s writes bytes to the socket that did not come out of the output processor" % t.name,
                       st, ev.span)
    explore(ctx, on_event=on_event, want=lambda c: is_write(c) or processor_call(c, "OutputProcessor"))
    ctx.count("socket writes", len(sites), 2)


def ev_c(ev):
    class X:
        pass
    x = X()
    x.name, x.path, x.trait, x.self_adt, x.local = ev.name, ev.path, ev.trait, ev.self_adt, False
    return x


def check(ctx):
    ctx.explanation = ("Provenance of every buffer from cipher to socket and back: the data packetised is the Ok result of the node's encrypter on "
                       "the whole message, the output is made of nothing but those packets, socket writes in every task of a node take only that "
                       "output, and the input processor delivers nothing but the Ok result of the node's decrypter.")
    ctx.rules = ["encrypt dominates packetise", "output consists of packets", "socket writes take processor output",
                 "deliveries are decrypter results", "wires are built with the configured bicrypter"]
    check_output(ctx)
    check_input(ctx)
    check_writes(ctx)
    check_wires(ctx, ("encrypter", "decrypter"))
    check_clones(ctx, ("Encrypter", "Decrypter"))
    check_reads(ctx)
    ctx.oblige("every output is encrypted and every delivery decrypted", True)
