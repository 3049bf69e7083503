"""C07: packets are checked against the transmission size and partition the message."""
from common import *
from rules.wiring import check_wires
from facts import path_match


def poly(v, n=0):
    """a number as a sum: {term: coefficient, 1: constant}"""
    v = unconv(v)
    if n < 40:
        if v.k == "c" and isinstance(v.a[0], int) and not isinstance(v.a[0], bool):
            return {1: v.a[0]} if v.a[0] else {}
        if v.k == "op" and v.a[0] in ("Add", "Sub", "AddUnchecked", "SubUnchecked") and len(v.a) == 3:
            return padd(poly(v.a[1], n + 1), poly(v.a[2], n + 1), 1 if v.a[0].startswith("Add") else -1)
        if v.k == "pure" and tail(v) in ("wrapping_add", "saturating_add"):
            return padd(poly(v.a[1][0], n + 1), poly(v.a[1][1], n + 1), 1)
        if v.k == "pure" and tail(v) in ("wrapping_sub", "saturating_sub"):
            return padd(poly(v.a[1][0], n + 1), poly(v.a[1][1], n + 1), -1)
        if v.k in ("call", "pure") and tail(v) == "len" and len(args_of(v)) == 1:
            return piece_len(v, args_of(v)[0], n)
    return {v: 1}


def piece_len(v, x, n):
    """the length v of the sequence x, which may be a piece of another"""
    whole = lambda y: poly(mk(v.k, *v.a[:-1], (y,)) if v.k == "pure" else mk("pure", "slice::len", (y,)), n + 1)
    if x.k in ("call", "pure") and tail(x) == "index":
        r = args_of(x)[1]
        if r.k == "agg":
            nm, fs, base = r.a[0].rsplit("::", 1)[-1], dict(r.a[2]), args_of(x)[0]
            if nm == "Range":
                return padd(poly(fs["end"], n + 1), poly(fs["start"], n + 1), -1)
            if nm == "RangeTo":
                return poly(fs["end"], n + 1)
            if nm == "RangeFrom":
                return padd(whole(base), poly(fs["start"], n + 1), -1)
            if nm == "RangeFull":
                return whole(base)
    if x.k == "proj" and x.a[1] in (".0", ".1") and tail(x.a[0]) == "split_at":
        a = args_of(x.a[0])
        return poly(a[1], n + 1) if x.a[1] == ".0" else padd(whole(a[0]), poly(a[1], n + 1), -1)
    return {v: 1}


def padd(a, b, s):
    r = dict(a)
    for k, c in b.items():
        r[k] = r.get(k, 0) + s * c
        if r[k] == 0:
            del r[k]
    return r


def peq(a, b):
    return a == b


def pneg(a):
    return {k: -c for k, c in a.items()}


def pushes(v):
    """the values pushed onto a container, in order; None for what a widened one holds"""
    out = []
    while v.k == "mut" and v.a[3]:
        if v.a[0] == "loopacc":
            out.append(None)
            break
        if tail(v) == "push" and len(v.a[3]) == 2:
            out.append(v.a[3][1])
        else:
            out.append(None)
        v = v.a[3][0]
    if not (v.k in ("call", "pure") and tail(v) in ("new", "with_capacity", "default")):
        out.append(None)
    out.reverse()
    return out


def is_packet(v):
    return v.k == "agg" and path_match(strip_generics(str(v.a[0])), "Packet")


def chunk(v, data):
    """(start, end) of the piece of the data the term is, as sums; None if it is something else"""
    ln = mk("pure", "slice::len", (data,))
    if v is data:
        return {}, {ln: 1}
    if tail(v) == "index" and v.k in ("call", "pure"):
        a = args_of(v)
        r = a[1]
        if r.k == "agg":
            nm = r.a[0].rsplit("::", 1)[-1]
            fs = dict(r.a[2])
            base = chunk(a[0], data)
            if base is None:
                return None
            if nm == "Range":
                return padd(base[0], poly(fs["start"]), 1), padd(base[0], poly(fs["end"]), 1)
            if nm == "RangeTo":
                return base[0], padd(base[0], poly(fs["end"]), 1)
            if nm == "RangeFrom":
                return padd(base[0], poly(fs["start"]), 1), base[1]
            if nm == "RangeFull":
                return base
    if v.k == "proj" and v.a[1] in (".0", ".1") and tail(v.a[0]) == "split_at":
        a = args_of(v.a[0])
        base = chunk(a[0], data)
        if base is None:
            return None
        m = padd(base[0], poly(a[1]), 1)
        return (base[0], m) if v.a[1] == ".0" else (m, base[1])
    return None


def looped(p):
    return any(contains(k, lambda x: x.k == "pure" and x.a[0].startswith("loop")) for k in p if isinstance(k, V))


def order_facts(st, extra=()):
    """(p, strict) pairs: p >= 0, or p > 0 if strict; and equalities (p, '=') / (p, '!=')"""
    items = [(k, v[1]) for k, v in st.ref.items() if v[0] == "is"] + list(extra)
    for t, v in items:
        while t.k == "op" and t.a[0] == "Not":
            t, v = t.a[1], (not v if isinstance(v, bool) else v)
        if t.k != "op" or not isinstance(v, bool) or len(t.a) != 3:
            if tail(t) == "is_empty" and isinstance(v, bool):
                x = poly(mk("pure", "slice::len", (args_of(t)[0],)))
                yield (x, "=" if v else "!=")
            continue
        if t.a[0] not in ("Eq", "Lt"):
            continue
        d = padd(poly(t.a[2]), poly(t.a[1]), -1)      # rhs - lhs
        if t.a[0] == "Eq":
            yield (d, "=" if v else "!=")
        elif v:
            yield (d, True)
        else:
            yield (pneg(d), False)


def known(st, p, what, extra=()):
    """does the path know p == 0 ('='), p != 0 ('!='), p >= 0 ('>='), p > 0 ('>')?"""
    for q, s in order_facts(st, extra):
        if what in ("=", "!="):
            if s == what and (peq(q, p) or peq(q, pneg(p))):
                return True
            if what == "!=" and s is True and (peq(q, p) or peq(q, pneg(p))):
                return True
        else:
            d = padd(p, q, -1)
            c = d.pop(1, 0)
            if d:
                continue
            # p = q + c
            lo = c + (1 if s is True else 0) if s in (True, False) else (c if s == "=" else None)
            if s == "=" and not padd(p, q, 1).keys() - {1}:
                pass
            if lo is not None and lo >= (1 if what == ">" else 0):
                return True
    return False


def check(ctx):
    ctx.explanation = ("Every path of Encoder::encode up to each packet that is added to the result: the packet's own serialized length has been "
                       "compared with the given maximum and found not to exceed it; its id is the given one, its index its place in the result, its data a "
                       "piece of the given data that starts where the previous one ended, and it is final exactly on the paths that know that the "
                       "piece ends where the data ends; the result is returned only once no data is left. The caller passes the configured transmission size "
                       "and an id drawn for the message.")
    ctx.rules = ["a size test on the very packet dominates its addition", "index/offset/final-flag arithmetic of each addition",
                 "exhaustion of the data dominates the return", "provenance of size and id in OutputProcessor::process",
                 "the size a node's processor is built with is one of those of its transport, unchanged"]
    ctx.assumptions = ["the arithmetic is compared for the first iterations of the loop as it is unrolled before widening; later ones execute the same code"]
    f = ctx.f
    n = {"push": 0, "exact": 0, "ret": 0, "call": 0, "second": 0}
    for b in ctx.anchor(f.fns("encode", self_adt="Encoder"), "Encoder::encode"):
        check_encode(ctx, b, n)
    for b in ctx.anchor(f.fns("process", self_adt="OutputProcessor"), "OutputProcessor::process"):
        check_process(ctx, b, n)
    ctx.count("points where a packet is added", n["push"], 1)
    ctx.count("packets followed exactly", n["exact"], 2)
    ctx.count("second packets", n["second"], 1)
    ctx.count("ways out with packets", n["ret"], 1)
    ctx.count("calls of the encoder", n["call"], 1)
    check_sizes(ctx)
    ctx.oblige("packets fit and partition the message", True)


def check_sizes(ctx):
    """the size packets are made for is one of the transmission sizes of the transport, as it is"""
    sizes = set()

    def on_size(eng, st, hist, val):
        sizes.add(val)
    for b in ctx.anchor(ctx.f.fns("size", self_adt="NetTransmission"), "NetTransmission::size"):
        ctx.run(Trace(want=lambda c: False, on_ret=on_size), b)
    n = 0
    for task, a in check_wires(ctx, ("size",)):
        v = field(a, "transmission_size")
        if v is None:
            continue
        n += 1
        calculated = contains(v, lambda x: x.k == "op" or x.k in ("call", "pure") and tail(x) in CONV_SIZE)
        ok = v in sizes or v.k != "c" and not calculated
        ctx.oblige("packets are made for a transmission size of the transport", ok, "size:" + task,
                   "%s makes packets for a size that is none of the transmission sizes" % task)
    ctx.counts["transmission sizes followed to the processor"] = n


CONV_SIZE = {"saturating_add", "saturating_sub", "saturating_mul", "wrapping_add", "wrapping_sub", "checked_add", "checked_sub", "checked_mul", "max", "pow",
             "next_power_of_two", "add", "sub", "mul", "div"}


def check_encode(ctx, b, n):
    f = ctx.f
    heads = {}

    def loops(c):
        body = f.body(c.rid)
        return bool(body is not None and ret_is_number(body) and not calls_packet(f, body))
    info = param(b.locals[2][1] or "arg2")
    inf = lambda x: mk("proj", info, "." + x)
    size, data, ident, enc = inf("max_packet_size"), inf("data"), inf("id"), inf("encryption")
    ln = {mk("pure", "slice::len", (data,)): 1}

    def size_test(t):
        return t.k == "op" and contains(t, lambda x: x is size) and contains(t, is_packet)

    lt = mk("pure", "slice::len", (data,))

    def end_test(t):
        while t.k == "op" and t.a[0] == "Not":
            t = t.a[1]
        if tail(t) == "is_empty":
            return chunk(args_of(t)[0], data) is not None
        return t.k == "op" and t.a[0] in ("Lt", "Eq") and not contains(t, is_packet) and lt in padd(poly(t.a[1]), poly(t.a[2]), -1)

    def on_event(eng, st, hist, ev):
        if ev.kind != "call" or ev.name not in ("push", "push_back", "insert", "extend"):
            return
        if not any(is_packet(x) for x in ev.terms[1:]):
            if any(contains(x, is_packet) for x in ev.terms[1:]) and ev.types and "Packet" in ev.types[0]:
                eng.report("shape", "a packet is not added as it was made", st, ev.span)
            return
        if ev.name not in ("push", "push_back"):
            eng.report("shape", "a packet is added other than at the end", st, ev.span)
            return
        n["push"] += 1
        v, p = ev.terms[0], ev.terms[1]
        tests = [(e.terms[0], e.res) for e in hist if e.kind == "br" and size_test(e.terms[0])]
        lens = [x for t, _ in tests for x in subterms(t) if tail(x) == "len" and contains(x, lambda y: y is p) and
                args_of(x)[0].k == "proj" and args_of(x)[0].a[1] == ".0"]
        wide = contains(p, lambda x: x.k == "top" or x.k == "pure" and x.a[0].startswith("loop")) or contains(v, lambda x: x.k == "top" or x.k == "mut" and x.a[0] == "loopacc")
        wide = wide or None in pushes(v)
        n["exact"] += not wide
        fits = wide or any(known(st, padd({size: 1}, {l: 1}, -1), ">=", tests) for l in lens)
        if not fits:
            eng.report("size", "a packet is added whose own size has not been compared with the maximum and found not to exceed it", st, ev.span)
        md = field(p, "metadata")
        if field(md, "id") is not ident:
            eng.report("id", "a packet does not carry the id chosen for the message", st, ev.span)
        prev = pushes(v)
        idx = unconv(field(md, "index"))
        good = (tail(idx) == "len" and args_of(idx)[0] is v) or \
            (None in prev and (idx.k == "pure" and idx.a[0].startswith("loop") or tail(idx) == "next" or contains(idx, lambda x: tail(x) == "next"))) or \
            (contains(idx, lambda x: tail(x) == "next" and contains(x, lambda y: tail(y) == "enumerate")) and idx.k == "proj" and idx.a[1] == ".0")
        if None not in prev:
            # the analysis keeps the last packet added by each place in the code
            pi = poly(idx)
            good = good or (pi == {} if not prev else is_packet(prev[-1]) and
                            pi == padd(poly(field(field(prev[-1], "metadata"), "index")), {1: 1}, 1))
        if not good and not wide:
            eng.report("index", "a packet's index is not its place among the message's packets", st, ev.span)
        ch = chunk(field(p, "data"), data)
        if ch is None:
            eng.report("data", "a packet's data is not a piece of the message's data", st, ev.span)
            return
        start, end = ch
        start = {k: c for k, c in start.items() if c}
        if None not in prev:
            if not prev:
                if start and not wide:
                    eng.report("gap", "the first packet does not carry the beginning of the data", st, ev.span)
            else:
                n["second"] += 1
                pc = chunk(field(prev[-1], "data"), data) if is_packet(prev[-1]) else None
                if (pc is None or pc[1] != start) and not wide:
                    eng.report("gap", "a packet's piece of the data does not start where the previous one ended", st, ev.span)
        elif not wide:
            eng.report("gap", "the pieces of the data do not move on from packet to packet", st, ev.span)
        rest = padd(ln, end, -1)
        ty = field(md, "type")
        if is_variant(ty, "Final"):
            if rest and not wide and not (known(st, rest, "=") or known(st, pneg(rest), ">=")):
                eng.report("early-final", "a packet is marked final without knowing that it completes the data", st, ev.span)
            if not contains(field(ty, "encryption"), lambda x: x is enc):
                eng.report("encryption", "the final packet does not carry the encryption details of the message", st, ev.span)
        elif is_variant(ty, "NotFinal"):
            if not wide and not (rest and known(st, rest, "!=") or rest and known(st, rest, ">")):
                eng.report("missing-final", "a packet that completes the data may not be marked final", st, ev.span)
        else:
            eng.report("final", "cannot tell whether a packet is marked final", st, ev.span)

    def on_ret(eng, st, hist, val):
        if not is_variant(val, "Ok"):
            return
        v = val.a[2][0][1]
        n["ret"] += 1
        ps = pushes(v)
        if v.k == "mut" and tail(v) in ("truncate", "pop", "clear", "dedup", "reverse", "remove", "retain", "swap", "drain", "sort_by_key", "split_off"):
            eng.report("result", "packets are dropped or reordered (%s)" % v.a[0], st)
        if None in ps:
            return
        if ps and is_packet(ps[-1]):
            ch = chunk(field(ps[-1], "data"), data)
            rest = padd(ln, ch[1], -1) if ch else ln
        else:
            rest = ln
        tests = [(e.terms[0], e.res) for e in hist if e.kind == "br"]
        ends = [p for p, s in order_facts(st, tests) if s is not True and s != "!=" and looped(p) and p.get(lt)]
        if rest and not ends and not (known(st, rest, "=", tests) or known(st, pneg(rest), ">=", tests)):
            eng.report("incomplete", "encoding ends although data may be left", st)

    r = Trace(want=lambda c: c.name in ("push", "push_back", "insert", "extend"), relevant=lambda c: c.name in ("push", "push_back", "sign"),
              opaque=loops, on_event=on_event, on_ret=on_ret, wantbranch=lambda t: size_test(t) or end_test(t), max_states=200000)
    r.max_hist = 3
    ctx.run(r, b)


def calls_packet(f, body):
    """does the function take a packet (and compute, say, its size)?"""
    return any("Packet" in body.locals[i][0] and "PacketType" not in body.locals[i][0] for i in range(1, body.argc + 1))


def check_process(ctx, b, n):
    me = param("self")

    def on_event(eng, st, hist, ev):
        if ev.kind == "call" and ev.name == "encode" and path_match(strip_generics(ev.self_adt), "Encoder"):
            n["call"] += 1
            a = ev.terms[1]
            if field(a, "max_packet_size") is not mk("proj", me, ".transmission_size"):
                eng.report("configured-size", "the encoder is not given the configured transmission size", st, ev.span)
            i = field(a, "id")
            if not contains(i, lambda x: x.k == "call" and tail(x) in ("random", "gen", "next_u32", "gen_range", "sample", "next_u64")):
                eng.report("fresh-id", "the message's id is not drawn for it", st, ev.span)
            elif contains(i, lambda x: x.k in ("call", "pure") and x.a[0] in CONV or x.k == "op" and x.a[0] in ("Narrow", "BitAnd", "Rem", "Shr", "Div")):
                eng.report("fresh-id", "the message's id is not drawn from all ids", st, ev.span)
            if any(e.kind == "call" and e.name == "encode" for e in hist):
                pass
    r = Trace(want=lambda c: c.name == "encode" and path_match(strip_generics(c.self_adt), "Encoder"),
              opaque=lambda c: c.name == "encode" and path_match(strip_generics(c.self_adt), "Encoder"), on_event=on_event)
    ctx.run(r, b)
