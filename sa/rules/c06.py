"""C06: a packet is stored only at a free position not beyond the final one; only complete groups are delivered, in order."""
from common import *

MUTS = {"insert", "remove", "clear", "drain", "pop", "truncate", "take", "replace", "extend", "push", "remove_entry", "append"}
TESTS = {"contains_key", "get", "find", "any", "all", "max", "entry", "or_default", "retain", "get_mut", "len"}
SORTS = {"sort_by_key", "sort_unstable_by_key", "sort_by", "sort_unstable_by", "sort", "sort_unstable", "sort_by_cached_key"}
UNORDERED = {"rev", "take", "skip", "filter", "dedup", "truncate", "step_by", "take_while", "skip_while", "nth", "last",
             "pop", "remove", "first", "reverse", "zip", "filter_map", "min", "max", "map_while", "split_off", "drain", "swap",
             "dedup_by_key", "dedup_by", "retain", "rotate_left", "rotate_right", "split_at", "split_first", "split_last", "chunks",
             "resize", "clear", "sort_floats", "interleave", "cycle"}


def own(v):
    return contains(v, lambda x: x.k == "proj" and fields_of(x)[0] is param("self"))


def is_packet(v):
    return v.k == "proj" and v.a[1] == ".0" and v.a[0].k == "proj" and v.a[0].a[1] == "@Ok" and \
        contains(v, lambda x: x.k in ("call", "pure") and x.a[0].endswith("from_slice"))


def part(v, name):
    """is the term the field `name` of a received packet? returns the packet"""
    v = unconv(v)
    r, steps = fields_of(v)
    if not steps or steps[-1] != "." + name:
        return None
    x = v
    while x.k == "proj":
        x = x.a[0]
        if is_packet(x):
            return x
    return None


def keyed_by(v, pk):
    """does the term depend on the packet's id, unaltered?"""
    todo = [v]
    seen = set()
    while todo:
        x = todo.pop()
        if part(x, "id") is pk:
            return True
        if x in seen or x.k == "op":
            continue
        seen.add(x)
        todo.extend(kids(x))
    return False


def type_of(st, pk):
    """Final / NotFinal / None as known on this path"""
    for k, v in st.ref.items():
        if k.k == "proj" and contains(k, lambda x: x is pk) and v[0] == "is" and v[1] in ("Final", "NotFinal"):
            r, s = fields_of(k)
            if not any("final_index" in x for x in s):
                return v[1]
        if v[0] == "not" and k.k == "proj" and contains(k, lambda x: x is pk) and fields_of(k)[1][-1:] == [".type"]:
            if "Final" in v[1] and "NotFinal" not in v[1]:
                return "NotFinal"
    return None


def unnot(t, val):
    while t.k == "op" and t.a[0] == "Not":
        t = t.a[1]
        val = (not val) if isinstance(val, bool) else val
    return t, val


def facts_at(st):
    for k, v in st.ref.items():
        if v[0] == "is":
            yield unnot(k, v[1])


def group_of(v):
    """the container of one group's packets a term works on"""
    for x in subterms(v):
        if x.k == "proj" and x.a[1] == ".packets":
            return x
    return None


def beyond(ctx, clo, pk, cache):
    """sign of a predicate closure: True if it holds exactly of positions beyond the packet's, False for the opposite"""
    if clo in cache:
        return cache[clo]
    out = set()
    idx = [x for x in subterms(clo) if part(x, "index") is pk]
    for v, ref in closure_rets(ctx, clo):
        v, s = unnot(v, True)
        if v.k == "op" and v.a[0] == "Lt":
            a, b = unconv(v.a[1]), unconv(v.a[2])
            if part(a, "index") is pk and contains(b, lambda x: x is param("elem")):
                out.add(s)
                continue
            if part(b, "index") is pk and contains(a, lambda x: x is param("elem")):
                # elem < index: its negation also holds of the packet's own position, which is free
                out.add(not s)
                continue
        out.add(None)
    r = out.pop() if len(out) == 1 else None
    cache[clo] = r
    return r


def check_insert(ctx, eng, st, hist, ev, cache):
    pk = ev.terms[-1]
    if ev.terms[0].k == "proj" and ev.name == "insert" and len(ev.terms) == 2:      # VacantEntry::insert
        ent = [x for x in subterms(ev.terms[0]) if tail(x) == "entry" and len(args_of(x)) == 2 and part(args_of(x)[1], "index") is pk]
        ok = bool(ent) and "@Vacant" in fields_of(ev.terms[0])[1]
        free, pkts = ok, (args_of(ent[0])[0] if ent else ev.terms[0])
        if not ent:
            eng.report("position", "a packet is stored under something other than its position", st, ev.span)
            return
    else:
        pkts = ev.terms[0]
        if part(ev.terms[1], "index") is not pk:
            eng.report("position", "a packet is stored under something other than its position", st, ev.span)
            return
        free = False
    if not keyed_by(pkts, pk):
        eng.report("group", "a packet is stored in a group that is not the one it names", st, ev.span)
        return
    grp = pkts.a[0] if pkts.k == "proj" else pkts
    final = nobey = None
    ty = type_of(st, pk)
    known_none = False
    for t, v in facts_at(st):
        nm = tail(t)
        a = args_of(t)
        if nm == "contains_key" and v is False and len(a) == 2 and a[0] is pkts and part(a[1], "index") is pk:
            free = True
        if nm in ("get", "get_mut") and v == "None" and len(a) == 2 and a[0] is pkts and part(a[1], "index") is pk:
            free = True
        if t.k == "proj" and t.a[1] == ".final_index" and t.a[0] is grp:
            final = v
        if t.k == "op" and t.a[0] == "Lt":
            x, xo = linear(t.a[1])
            y, yo = linear(t.a[2])
            fi = lambda z: z.k == "proj" and z.a[1] == ".0" and z.a[0].k == "proj" and z.a[0].a[1] == "@Some" and \
                z.a[0].a[0].k == "proj" and z.a[0].a[0].a[1] == ".final_index" and z.a[0].a[0].a[0] is grp
            if part(x, "index") is pk and fi(y) and (v is True and yo - xo <= 1):
                nobey = True
            if part(y, "index") is pk and fi(x) and (v is False and xo - yo <= 0):
                nobey = True
    if not free:
        eng.report("occupied", "a packet is stored at a position that may already be filled", st, ev.span)
    if final is None:
        eng.report("final-unknown", "a packet is stored without asking whether the final position of its group is known", st, ev.span)
    elif final == "Some":
        if ty != "NotFinal":
            eng.report("second-final", "a second final packet can be stored", st, ev.span)
        if not nobey:
            eng.report("beyond", "a packet beyond the final position can be stored", st, ev.span)
    if ty is None:
        eng.report("final-unseen", "a packet is stored without looking at whether it is the final one", st, ev.span)
    if ty == "Final" and final != "Some":
        ok = False
        for t, v in facts_at(st):
            a = args_of(t)
            nm = tail(t)
            if nm in ("find", "any", "all", "position", "find_map") and a and contains(a[0], lambda x: x is pkts) and \
                    len(a) > 1 and is_closure(a[1]) and not any(tail(x) in UNORDERED for x in subterms(a[0])):
                s = beyond(ctx, a[1], pk, cache)
                if nm == "all" and s is False and v is True:
                    ok = True
                if nm == "any" and s is True and v is False or nm in ("find", "position") and s is True and v == "None":
                    ok = True
            if nm == "max" and v == "None" and a and contains(a[0], lambda x: x is pkts):
                ok = True
            if nm in ("next",) and v == "None" and a and contains(a[0], lambda x: x is pkts):
                c = [x for x in subterms(a[0]) if tail(x) == "filter"]
                if not c or all(len(args_of(x)) > 1 and is_closure(args_of(x)[1]) and beyond(ctx, args_of(x)[1], pk, cache) is True for x in c):
                    if c or cache.get("looped"):
                        ok = True
            if nm == "is_empty" and v is True and a and contains(a[0], lambda x: x is pkts):
                ok = True
            if t.k == "op" and t.a[0] == "Lt":
                x, xo = linear(t.a[1])
                y, yo = linear(t.a[2])
                mx = lambda z: contains(z, lambda w: tail(w) in ("max", "next_back", "last_key_value") and contains(w, lambda q: q is pkts))
                if v is False and part(x, "index") is pk and mx(y) or v is True and part(y, "index") is pk and mx(x):
                    ok = True
        for e in hist:
            if e.kind == "br" and stored_beyond(e.terms[0], e.res, pk, pkts):
                eng.report("final-below", "a final packet is stored although one beyond it was found", st, ev.span)
        if not ok:
            eng.report("final-below", "a final packet can be stored although packets beyond it have been", st, ev.span)


def stored_beyond(t, v, pk, pkts):
    t, v = unnot(t, v)
    if t.k != "op" or t.a[0] != "Lt":
        return False
    el = lambda z: contains(z, lambda w: tail(w) == "next" and (pkts is None or contains(w, lambda q: q is pkts)))
    if part(t.a[1], "index") is pk and el(t.a[2]):
        return v is True
    if part(t.a[2], "index") is pk and el(t.a[1]):
        return v is False
    return False


def complete(st, pk):
    """True / False / None: whether the path knows the packet's group to be complete"""
    fin = lambda z: z.k == "proj" and z.a[1] == ".0" and fields_of(z)[1][-3:-1] == [".final_index", "@Some"]
    ln = lambda z: tail(z) == "len" and args_of(z) and group_of(args_of(z)[0]) is not None
    out = None
    for t, v in facts_at(st):
        if t.k == "op" and t.a[0] in ("Eq", "Lt") and isinstance(v, bool):
            x, xo = linear(t.a[1])
            y, yo = linear(t.a[2])
            if fin(x) and ln(y) and keyed_by(x, pk) and keyed_by(y, pk):
                if t.a[0] == "Eq":
                    if xo - yo == 1:
                        out = v if out is None or v else out
                elif v is True and xo - yo >= 0:
                    out = True
                elif v is False and xo - yo <= 0 and out is None:
                    out = False
            elif fin(y) and ln(x) and keyed_by(x, pk) and keyed_by(y, pk):
                if t.a[0] == "Eq":
                    if yo - xo == 1:
                        out = v if out is None or v else out
                elif v is False and yo - xo >= 1:
                    out = True
                elif v is True and yo - xo <= 1 and out is None:
                    out = False
        if tail(t) == "all" and isinstance(v, bool):
            a = args_of(t)
            if a and contains(a[0], lambda x: fin(x) and keyed_by(x, pk)) and len(a) > 1 and is_closure(a[1]):
                out = v
    return out


def check_buffer(ctx, eng, st, ev, pk, cache):
    buf = ev.terms[1]
    g = group_of(buf)
    if tail(buf) in ("new", "with_capacity", "default") or (closures(buf) and not g and contains(buf, lambda x: tail(x) == "new")):
        # what a loop over no packets at all leaves
        cache.setdefault("empty", (eng, st, ev))
        return
    if g is None or not keyed_by(g, pk):
        eng.report("other-data", "what is decrypted does not come from the packets of the packet's group", st, ev.span)
        return
    for x in subterms(buf):
        if x.k in ("call", "pure", "mut") and tail(x) in UNORDERED and contains(x, lambda y: y is g) and x is not g:
            if any(contains(y, lambda z: z is g) for y in kids(x)):
                eng.report("partial", "the packets' data is not taken whole or not in order (%s)" % x.a[0], st, ev.span)
                return
    ordered = False
    sortclo = []
    for x in subterms(buf):
        if x.k == "mut" and tail(x) in SORTS:
            cl = [y for y in x.a[3][1:] if is_closure(y)]
            sortclo += cl
            if not cl:
                ordered = True
            for c in cl:
                if c not in cache:
                    if tail(x) in ("sort_by", "sort_unstable_by"):
                        cache[c] = all(by_cmp(v) for v, _ in closure_rets(ctx, c, names=("a", "b"))) or None
                    else:
                        cache[c] = all(is_index(v) for v, _ in closure_rets(ctx, c))
                if cache[c]:
                    ordered = True
                else:
                    eng.report("order", "the packets are not sorted by their position in ascending order", st, ev.span)
                    return
        if x.k in ("call", "pure") and x.a[0].startswith("BTreeMap::") and tail(x) in ("values", "iter", "into_iter", "into_values"):
            ordered = True
        if x.k == "agg" and x.a[0].rsplit("::", 1)[-1] in ("Range", "RangeInclusive") or x.k in ("call", "pure") and x.a[0] == "RangeInclusive::new":
            fs = [y for _, y in x.a[2]] if x.k == "agg" else list(args_of(x))
            if fs and fs[0].k == "c" and fs[0].a[0] == 0:
                ordered = True
    if not ordered:
        eng.report("order", "the packets' data is put together without putting the packets in order", st, ev.span)
    for c in closures(buf):
        if c in sortclo:
            continue
        if c not in cache:
            cache[c] = all(whole_data(v) for v, _ in closure_rets(ctx, c))
        if not cache[c]:
            eng.report("partial", "not all of each packet's data is put together", st, ev.span)
            return
    cache["buffers"] = cache.get("buffers", 0) + 1


def is_index(v):
    v = unconv(v)
    return v.k == "proj" and (v.a[1] == ".index" or v.a[1] == ".0") and not contains(v, lambda x: x.k == "agg" and "Reverse" in str(x.a[0]))


def by_cmp(v):
    if tail(v) not in ("cmp",):
        return False
    a = args_of(v)
    return len(a) == 2 and is_index(a[0]) and is_index(a[1]) and contains(a[0], lambda x: x is param("a")) and \
        contains(a[1], lambda x: x is param("b"))


def whole_data(v):
    """a closure used in putting the data together passes on whole packets, or whole data"""
    if any(x.k in ("call", "pure", "mut") and tail(x) in LOSSY - {"get", "index", "len"} for x in subterms(v)):
        return False
    if any(tail(x) in ("index", "get") and args_of(x)[1:] and contains(args_of(x)[0], lambda y: y.k == "proj" and y.a[1] == ".data")
           for x in subterms(v) if x.k in ("call", "pure")):
        return False
    return True


def check(ctx):
    ctx.explanation = ("Every path through InputProcessor::process: at the point where the packet is stored, the path must have established that "
                       "the packet's position is free, that it is no second final packet, not beyond the known final position, and - if final - that "
                       "no stored packet lies beyond it; the final position is recorded exactly for final packets; a packet that is not stored is "
                       "answered by an error and nothing is removed. At the point of decryption the same group must be known to hold final position + 1 "
                       "packets, and the decrypted bytes are the group's packets' data, sorted by position, unabridged.")
    ctx.rules = ["insert is dominated by the four admission tests on the same group", "decrypt is dominated by completeness of the same group",
                 "sorted-by-position provenance of the decrypted bytes"]
    ctx.assumptions = ["HashMap keeps one value per key"]
    f = ctx.f
    n = {"insert": 0, "decrypt": 0, "ret": 0}
    names = MUTS | TESTS | {"decrypt"}
    for b in ctx.anchor(f.fns("process", self_adt="InputProcessor"), "InputProcessor::process"):
        cache = {}

        def stored(hist):
            return [e for e in hist if e.kind == "call" and e.name == "insert" and is_packet(e.terms[-1])]

        def on_event(eng, st, hist, ev):
            if ev.kind == "wr":
                return
            if ev.kind != "call":
                return
            if ev.name == "insert" and own(ev.terms[0]) and is_packet(ev.terms[-1]):
                n["insert"] += 1
                check_insert(ctx, eng, st, hist, ev, cache)
            if ev.name == "decrypt" and path_match(strip_generics(ev.trait), "Decrypter"):
                n["decrypt"] += 1
                ins = stored(hist)
                if not ins:
                    eng.report("unstored", "data is decrypted without the received packet having been stored", st, ev.span)
                    return
                pk = ins[-1].terms[-1]
                if complete(st, pk) is not True:
                    eng.report("incomplete", "data is decrypted without knowing that every position up to the final one has been received", st, ev.span)
                check_buffer(ctx, eng, st, ev, pk, cache)
            if ev.name in MUTS - {"insert"} and own(ev.terms[0]):
                ins = stored(hist)
                done = ins and complete(st, ins[-1].terms[-1]) is True
                if not done and ev.name != "retain":
                    eng.report("disturbed", "packets are removed from a group that is not complete (%s)" % ev.short, st, ev.span)

        def on_ret(eng, st, hist, val):
            ins = stored(hist)
            wrs = [e for e in hist if e.kind == "wr"]
            if not ins:
                if not is_variant(val, "Err"):
                    if any(v == ("is", "Ok") and k.k in ("call", "pure") and k.a[0].endswith("from_slice") for k, v in st.ref.items()):
                        eng.report("silent", "a packet that is not stored is not answered by an error", st)
                if wrs:
                    eng.report("rejected-changes", "a rejected packet changes the group's final position", st)
                return
            n["ret"] += 1
            pk = ins[-1].terms[-1]
            ty = type_of(st, pk)
            if len(ins) > 1:
                pass
            good = [e for e in wrs if e.terms[0].k == "agg" and is_variant(e.terms[0], "Some") and
                    part(e.terms[0].a[2][0][1], "index") is pk]
            if ty == "Final" and not good:
                eng.report("final-lost", "the final position is not recorded when the final packet is stored", st)
            if len(good) != len(wrs) or ty == "NotFinal" and wrs:
                eng.report("final-wrong", "something other than the final packet's position is recorded as the final position", st)
            if is_variant(val, "Ok") and contains(val, lambda x: is_variant(x, "None")) and not any(
                    e.kind == "call" and e.name == "decrypt" for e in hist) and complete(st, pk) is True:
                eng.report("undelivered", "a complete message is not delivered", st)

        def wb(t):
            if stored_beyond(t, True, one_pk(t), None) or stored_beyond(t, False, one_pk(t), None):
                cache["looped"] = True
                return True
            return False

        def one_pk(t):
            for x in subterms(t):
                if is_packet(x):
                    return x
            return None
        def over_nothing(eng, st, call):
            # there is nothing to come from a container that was just created
            if call.callee.name == "next" and call.terms and not call.callee.local:
                x = call.terms[0]
                while x.k in ("call", "pure") and tail(x) in ("into_iter", "iter", "rev", "map", "enumerate", "cloned", "copied", "deref") and args_of(x):
                    x = args_of(x)[0]
                if x.k in ("call", "pure") and x.a[0].startswith(("Vec::", "VecDeque::")) and tail(x) in ("new", "with_capacity"):
                    return agg("std::option::Option", "None", ())
            return None
        r = Trace(want=lambda c: c.name in MUTS | {"decrypt"}, relevant=lambda c: c.name in names, on_event=on_event, on_ret=on_ret,
                  wantbranch=wb, writes=lambda root, path, val: bool(path) and path[-1] == ".final_index", max_states=200000)
        r.max_hist = 12
        r.alias = over_nothing
        r.keep_all_refinements = True
        ctx.run(r, b)
        if not cache.get("buffers") and "empty" in cache:
            ctx.violation("other-data", "what is decrypted does not come from the packets of the packet's group", cache["empty"][2].span)
    ctx.count("points where a packet is stored", n["insert"], 1)
    ctx.count("points where data is decrypted", n["decrypt"], 1)
    ctx.count("ways out after storing", n["ret"], 1)
    ctx.oblige("messages are reassembled completely and in order", True)
