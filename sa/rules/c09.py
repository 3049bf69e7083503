"""C09: nothing a peer sends can panic a node."""
from common import *
from absint import Callee
from rules.c07 import poly, padd, pneg, order_facts

DIVERGE = {"panic", "panic_fmt", "unwrap_failed", "expect_failed", "panic_display", "panic_str", "panic_str_2015", "panic_explicit", "begin_panic",
           "unreachable_display", "panic_nounwind", "panic_bounds_check", "assert_failed", "assert_failed_inner", "exit", "abort",
           "unimplemented", "todo", "resume_unwind", "panic_any", "unwrap", "expect", "unwrap_err", "expect_err", "unwrap_none",
           "unreachable_unchecked", "slice_start_index_len_fail", "slice_end_index_len_fail"}
INDEX = {"index", "index_mut"}
SLICE = {"copy_from_slice", "clone_from_slice", "split_at", "split_at_mut", "swap", "rotate_left", "rotate_right", "copy_within",
         "swap_with_slice", "chunks", "chunks_exact", "windows", "select_nth_unstable", "rchunks"}
VEC = {"remove", "insert", "swap_remove", "drain", "split_off", "splice", "split_to", "advance", "set_len", "insert_str", "replace_range"}
GENARR = {"from_slice", "from_mut_slice", "clone_from_slice"}
ARITH = {"add", "sub", "mul", "div", "rem", "add_assign", "sub_assign", "mul_assign", "neg", "pow", "step_by", "gen_range", "from_exact_iter",
         "from_secs_f64", "from_secs_f32", "duration_since_panic", "with_capacity", "reserve", "reserve_exact", "resize", "repeat"}


# allocations of a given number of elements
ALLOC = {"with_capacity": 0, "with_capacity_and_hasher": 0, "reserve": 1, "reserve_exact": 1, "resize": 1, "resize_with": 1, "from_elem": 1, "repeat": 1}


def kindof(c):
    """the way a call to code outside the crate may panic on its arguments, or None"""
    p = c.path
    if c.local:
        return None
    if c.name in DIVERGE and (p.startswith(("core::", "std::", "alloc::")) or "panicking" in p or "Option" in p or "Result" in p):
        return "panic"
    if p.startswith(("core::panicking::", "std::panicking::", "std::rt::", "core::slice::index::", "core::str::slice_error")) and \
            ("panic" in c.name or "unreachable" in c.name or c.name.endswith("_fail") or "failed" in c.name) and c.name not in ("panicking", "catch_unwind"):
        return "panic"
    if c.name in INDEX and c.trait.endswith(("Index", "IndexMut")):
        return "index"
    if c.name in GENARR and ("GenericArray" in p or "generic_array" in p):
        return "length"
    if c.name in SLICE and ("slice" in p or "[T]" in p or "str" in p):
        return "slice"
    if c.name == "truncate" and "string::String" in p:
        return "vec"
    if c.name in VEC and ("vec::Vec" in p or "VecDeque" in p or "string::String" in p or "bytes::" in p) and "Entry" not in p:
        return "vec"
    if c.name in ALLOC and re.search(r"Vec|String|HashMap|HashSet|BTree|BinaryHeap|slice|\[T\]|str\b|bytes::", p + " " + c.self_adt):
        return "alloc"
    if c.name in ARITH and ("time::" in " ".join([p, c.self_adt] + [str(x) for x in c.args]) or c.name in ("step_by", "gen_range", "pow")):
        return "arith"
    return None


def lens_of(p):
    """the same sum with every length written the same way"""
    return {(mk("pure", "slice::len", (core_buf(args_of(k)[0]),)) if isinstance(k, V) and tail(k) == "len" else k): c for k, c in p.items()}


def facts_ge(st):
    """[sum >= 0] known on the path"""
    out = []
    for q, s in order_facts(st):
        q = lens_of(q)
        if s is True:
            out.append(padd(q, {1: 1}, -1))
        elif s is False:
            out.append(q)
        elif s == "=":
            out.append(q)
            out.append(pneg(q))
        elif s == "!=" and len(q) == 1 and 1 not in q:
            # a natural number that is not zero
            out.append({next(iter(q)): 1, 1: -1})
    for k, v in st.ref.items():
        if v[0] == "not" and isinstance(k, V) and 0 in v[1]:
            out.append(padd(lens_of(poly(k)), {1: 1}, -1))
    return out


def nonneg(p):
    return all(c >= 0 for c in p.values())


def ge0(st, p):
    """is the sum of naturals known not to be negative?"""
    alts = [lens_of(p)]
    for _ in range(2):
        more = []
        for q in alts:
            for k, c in q.items():
                if isinstance(k, V) and c < 0 and k.k in ("call", "pure") and tail(k) == "min":
                    for a in args_of(k):
                        r = dict(q)
                        del r[k]
                        for k2, c2 in poly(a).items():
                            r = padd(r, {k2: c2}, c)
                        more.append(lens_of(r))
        alts += more
    if any(nonneg(q) for q in alts):
        return True
    fs = facts_ge(st)
    for q in alts:
        rel = [f for f in fs if any(k in q for k in f)] or fs
        for f in rel:
            d = padd(q, f, -1)
            if nonneg(d):
                return True
            for g in fs:
                if nonneg(padd(d, g, -1)):
                    return True
    return False


def looped(v):
    return contains(v, lambda x: x.k == "top" or x.k == "pure" and x.a[0].startswith("loop") or x.k == "mut" and x.a[0] == "loopacc")


def in_scope(b):
    return b.file().startswith(("src/core", "src/utils")) and "_IMPL_" not in b.path and "BigArray" not in b.path and not b.derived


def roots(ctx):
    """where bytes, messages, requests and replies of a peer enter"""
    f = ctx.f
    out = []
    for adt, names in (("Server", ("listen", "cloneable_listen")), ("Client", ("connect",)), ("InputProcessor", ("process",)),
                       ("OutputProcessor", ("process",)), ("Executor", ("execute",)), ("Msg", ("from_slice", "to_vec"))):
        for nm in names:
            out += ctx.anchor(f.fns(nm, self_adt=adt), "%s::%s" % (adt, nm))
    out += ctx.anchor([b for b in f.local_bodies() if b.kind == "fn" and path_match(b.self_adt, "ConnectedClient")
                       and b.name.startswith("ask")], "ConnectedClient::ask*")
    out += ctx.anchor([b for b in f.local_bodies() if b.kind == "fn" and "server::action" in b.path and b.name in
                       ("execute", "route_and_execute")], "request execution")
    return [b.id for b in out]


HARMLESS = {"lock", "try_lock", "new_varkey", "new_from_slice"}


def harmless(t):
    """failures that no input can cause: a poisoned lock takes a panic first, a keyed hash takes a key of any length"""
    while True:
        if t.k == "proj" or t.k == "discr":
            t = t.a[0]
        elif t.k == "op" and t.a[0] in ("Eq", "Not"):
            t = t.a[1]
        elif t.k in ("call", "pure") and tail(t) in ("map_err", "as_ref", "as_mut", "ok", "branch", "take_output") and args_of(t):
            if t.a[0].startswith("MaybeDone::"):
                return True
            t = args_of(t)[0]
        else:
            break
    return t.k in ("call", "pure") and (tail(t) in HARMLESS or t.a[0].startswith("MaybeDone::") or
                                        t.a[0] in ("RwLock::read", "RwLock::write", "Mutex::lock"))


def receiver_self(v):
    """is the term made from nothing but the node's own state and constants?"""
    return all(a.k != "param" or a.a[0] == "self" for a in atoms(v)) and \
        not contains(v, lambda x: x.k in ("call", "pure") and tail(x) in SOURCES)


SOURCES = {"recv", "recv_from", "read", "from_slice", "process", "next", "poll_next", "ask", "accept"}


def complete_group(st, t):
    """a group found to be complete has a packet in every position from 0 to its last one (C06)"""
    if tail(t) not in ("get", "index") or len(args_of(t)) < 2:
        return False
    m, i = args_of(t)[0], args_of(t)[1]
    if not (m.k == "proj" and m.a[1] == ".packets") or not (contains(i, lambda x: tail(x) == "next" and contains(x, lambda y: y.k == "agg" and "Range" in y.a[0] or tail(y) == "new"
                                                                                                                and "Range" in y.a[0])) or looped(i)):
        return False
    fin = lambda x: x.k == "proj" and x.a[1] == ".final_index"
    return any(isinstance(k, V) and k.k == "op" and contains(k, fin) and contains(k, lambda x: tail(x) == "len") for k in st.ref)


def plain_keys(v):
    """values with a time to live are equal if the values are"""
    return subst(v, lambda x: field(x, "value") if x.k == "agg" and x.a[0].endswith("TtlValue") else None)


def absent(st, t):
    """does the path contradict the entry of a map, whose absence makes the panic, being absent?"""
    if t.k == "proj":
        p = plain_keys(t)
        return any(isinstance(k, V) and k is not t and k.k == "proj" and k.a[1] == t.a[1] and v[0] == "is" and v[1] in ("Some", "Ok") and plain_keys(k) is p
                   for k, v in st.ref.items())
    if tail(t) not in ("get", "get_mut", "remove", "get_key_value", "remove_entry"):
        return False
    key = [plain_keys(x) for x in args_of(t)]
    for k, v in st.ref.items():
        if k is not t and v[0] == "is" and k.k in ("call", "pure") and (
                tail(k) in ("get", "get_mut", "get_key_value") and v[1] == "Some" or tail(k) == "contains_key" and v[1] is True):
            if [plain_keys(x) for x in args_of(k)] == key:
                return True
    return False


def judge(eng, st, hist, ev, kind):
    """None if the call cannot panic here, otherwise what would"""
    t = ev.terms
    if kind == "panic":
        why = [e.terms[0] for e in hist if e.kind == "br"][-1:] + list(t)
        if any(harmless(x) for x in why) or why and (absent(st, why[0]) or complete_group(st, why[0])):
            return None
        return "panics (%s)" % ev.short
    if kind in ("index", "vec", "slice") and is_str(ev) and ev.name not in ("swap",):
        m = cut_ok(st, ev)
        if m or ev.name == "truncate" or found_in(ev):
            return m
    if kind == "index":
        if "HashMap" in ev.path + " ".join(ev.types) or "BTreeMap" in ev.path + " ".join(ev.types):
            return "indexes a map with a key that may be absent"
        return range_ok(eng, st, t[0], t[1], ev)
    if kind == "vec":
        if ev.name == "drain" or ev.name == "splice" or ev.name == "replace_range":
            return range_ok(eng, st, t[0], t[1], ev)
        if ev.name in ("split_off", "split_to", "advance", "insert"):
            return bound(eng, st, t[1], t[0], False, ev)
        if ev.name in ("remove", "swap_remove"):
            if ev.short.startswith("VecDeque::remove"):
                return None
            return bound(eng, st, t[1], t[0], True, ev)
        return "may be out of bounds (%s)" % ev.short
    if kind in ("slice", "length"):
        if ev.name in ("swap",):
            return "may be out of bounds (%s)" % ev.short
        if ev.name in ("chunks", "chunks_exact", "windows", "rchunks"):
            return None if t[1].k == "c" and t[1].a[0] else "may be given a size of zero (%s)" % ev.short
        if ev.name in ("split_at", "split_at_mut", "rotate_left", "rotate_right"):
            return bound(eng, st, t[1], t[0], False, ev)
        return same_len(eng, st, t, ev)
    if kind == "alloc":
        size = lens_of(poly(t[ALLOC[ev.name]])) if len(t) > ALLOC[ev.name] else {}
        for k, c in size.items():
            if k != 1 and c > 0 and chosen(k) and not any(f.get(k, 0) < 0 and not any(chosen(x) for x in f if x not in (1, k)) for f in facts_ge(st)):
                return "may try to allocate as much as it is told to (%s)" % ev.short
        return None
    if kind == "arith":
        bad = [x for x in t if not receiver_self(x) and not (tail(x) in ("now",))]
        if bad and ev.name in ("sub", "add", "mul", "sub_assign", "add_assign", "div"):
            return "arithmetic on times may overflow (%s)" % ev.short
        return None
    return "?"


def chosen(v):
    """is the number one that was decoded, rather than a count of what is held?"""
    v = unconv(v)
    if v.k == "op" and v.a[0] in ("Mul", "Shl", "BitOr", "Add"):
        return any(chosen(x) for x in v.a[1:])
    return v.k == "proj" and not receiver_self(v) and not looped(v)


BOUNDARY = ("find", "rfind", "char_indices", "match_indices", "rmatch_indices", "len_utf8", "find_map", "position", "floor_char_boundary",
            "ceil_char_boundary", "valid_up_to")


def is_str(ev):
    ty = ev.types[0] if ev.types else ""
    ty = ty.replace("&", "").replace("mut ", "").strip()
    return ty in ("str", "std::string::String", "alloc::string::String", "String")


def cut_ok(st, ev):
    """the positions at which a string is cut are boundaries of its characters, as far as the path tells"""
    t = ev.terms
    if len(t) < 2:
        return None
    r = t[1]
    if r.k == "agg":
        at = [x for _, x in r.a[2]] if r.a[0].rsplit("::", 1)[-1].startswith("Range") else [r]
    elif r.k in ("call", "pure") and r.a[0].endswith("RangeInclusive::new"):
        return "may cut a string inside a character (%s)" % ev.short
    elif r.k in ("const", "top") or "RangeFull" in " ".join(ev.types[1:]):
        return None
    else:
        at = [r]
    if any(v[0] == "is" and v[1] is True and tail(k) == "is_char_boundary" for k, v in st.ref.items() if isinstance(k, V)):
        return None
    for i in at:
        i = unconv(i)
        if i.k == "c" and i.a[0] in (0, True, False) or looped(i) or i in length_of(t[0]) + length_of(core_buf(t[0])):
            continue
        if tail(i) == "len" and same_buf(args_of(i)[0], t[0]):
            continue
        if contains(i, lambda x: tail(x) in BOUNDARY):
            continue
        return "may cut a string inside a character (%s)" % ev.short
    return None


def found_in(ev):
    """is the string cut only where something was found in it?"""
    r = ev.terms[1] if len(ev.terms) > 1 else None
    at = [x for _, x in r.a[2]] if r is not None and r.k == "agg" and r.a[0].rsplit("::", 1)[-1].startswith("Range") else [r] if r is not None else []
    return bool(at) and len(at) == 1 and any(tail(x) in ("find", "rfind") and args_of(x) and same_buf(args_of(x)[0], ev.terms[0]) for x in subterms(at[0]) if x.k in ("call", "pure"))


def length_of(v):
    """terms that stand for the length of v"""
    base = v
    return [mk("pure", n, (base,)) for n in ("slice::len", "Vec::len", "str::len", "String::len", "VecDeque::len", "HashMap::len")]


def const_len(x, ty=""):
    import re
    if x.k == "op" and x.a[0] == "repeat":
        n = x.a[2]
        try:
            return int(str(n.a[0]).split("_")[0].replace("usize", ""))
        except ValueError:
            return None
    if x.k == "agg" and x.a[0] in ("array", "[]"):
        return len(x.a[2])
    m = re.match(r"^&?(?:mut )?\[[^;\]]+; (\d+)(?:_usize)?\]$", ty)
    return int(m.group(1)) if m else None


def reads_into(n, buf):
    """is n the number of bytes a read put into that very buffer?"""
    return contains(n, lambda x: x.k == "call" and tail(x) in ("read", "recv", "recv_from", "peek", "peek_from", "poll_read", "try_read")
                    and any(same_buf(buf, y) for y in x.a[2]))


def core_buf(v):
    while True:
        if v.k == "mut" and v.a[3]:
            v = v.a[3][v.a[2]] if len(v.a[3]) > v.a[2] else v.a[3][0]
        elif v.k in ("call", "pure") and tail(v) in ("index", "index_mut", "deref", "deref_mut", "as_mut", "as_ref", "as_slice", "as_mut_slice") and args_of(v):
            v = args_of(v)[0]
        else:
            return v


def same_buf(a, b):
    return core_buf(a) is core_buf(b)


def bound(eng, st, i, v, strict, ev):
    """i <= len(v) (or < if strict)?"""
    i = unconv(i)
    if i.k == "c" and i.a[0] == 0 and not strict:
        return None
    if reads_into(i, v) and not strict:
        return None
    lens = length_of(v) + length_of(core_buf(v))
    if i in lens and not strict:
        return None
    if tail(i) in ("len",) and same_buf(args_of(i)[0], v) and not strict:
        return None
    if looped(i):
        return None
    for l in lens:
        if ge0(st, padd(padd({l: 1}, poly(i), -1), {1: 1 if strict else 0}, -1)):
            return None
    if i.k in ("call", "pure") and tail(i) == "min" and any(x in lens for x in args_of(i)) and not strict:
        return None
    if contains(i, lambda x: tail(x) in ("position", "find", "rposition", "iter_position") and any(same_buf(v, y) for z in args_of(x) for y in subterms(z))):
        return None
    c = const_len(core_buf(v))
    if c is not None and i.k == "c" and (i.a[0] < c or (not strict and i.a[0] == c)):
        return None
    return "may be out of bounds (%s)" % ev.short


def range_ok(eng, st, v, r, ev):
    if r.k == "agg":
        nm = r.a[0].rsplit("::", 1)[-1]
        fs = dict(r.a[2])
        if nm == "RangeFull":
            return None
        s, e = fs.get("start"), fs.get("end")
        if nm == "RangeTo":
            return bound(eng, st, e, v, False, ev)
        if nm == "RangeFrom":
            return bound(eng, st, s, v, False, ev)
        if nm == "Range":
            b = bound(eng, st, e, v, False, ev)
            if b:
                return b
            if s.k == "c" and s.a[0] == 0 or ge0(st, padd(poly(e), poly(s), -1)) or looped(s) or looped(e):
                return None
            return "may have a start beyond its end (%s)" % ev.short
        return "may be out of bounds (%s)" % ev.short
    if r.k in ("call", "pure") and r.a[0].endswith("RangeInclusive::new"):
        a, b = args_of(r)
        if a.k == "c" and a.a[0] == 0 or ge0(st, padd(poly(b), poly(a), -1)) or looped(a):
            return bound(eng, st, b, v, True, ev)
        return "may have a start beyond its end (%s)" % ev.short
    if r.k == "const" or r.k == "top":
        return None if "RangeFull" in " ".join(ev.types[1:]) else "may be out of bounds (%s)" % ev.short
    if "RangeFull" in " ".join(ev.types[1:]):
        return None
    return bound(eng, st, r, v, True, ev)


def same_len(eng, st, t, ev):
    """both sides of a copy have the same length, as far as types and paths tell"""
    import re
    if ev.name in ("from_slice", "from_mut_slice", "clone_from_slice") and "Generic" in ev.path + ev.short and len(t) == 1:
        n = const_len(core_buf(t[0]), ev.types[0])
        want = None
        if n is not None:
            return None
        src = core_buf(t[0])
        if fixed_size(src) or own_key(src):
            return None
        for l in length_of(t[0]) + length_of(src):
            if any(l in q and s == "=" for q, s in order_facts(st)):
                return None
        return "may be given a slice of the wrong length (%s)" % ev.short
    if len(t) == 2:
        for a, b in ((t[0], t[1]), (t[1], t[0])):
            for la in length_of(a) + length_of(core_buf(a)):
                if any(la in q and s == "=" for q, s in order_facts(st)):
                    return None
        na, nb = const_len(core_buf(t[0])), const_len(core_buf(t[1]))
        if na is not None and na == nb:
            return None
        if fixed_size(core_buf(t[1])):
            return None
        return "may be given slices of different lengths (%s)" % ev.short
    return "may be given a slice of the wrong length (%s)" % ev.short


def fixed_size(v):
    """values whose length their type fixes"""
    return contains(v, lambda x: x.k in ("call", "pure") and tail(x) in ("result", "into_bytes", "finalize", "code", "to_bytes", "to_be_bytes", "to_le_bytes"))


def own_key(v):
    return False


def innermost(f, st, span):
    """(body of ours, position in it) that is running, below library code that was inlined"""
    n = len(st.stack) - 1
    while n >= 0:
        b = f.body(st.stack[n][0])
        if b.id in f.raw:
            break
        n -= 1
    if n == len(st.stack) - 1:
        return b.id, span
    to = st.stack[n + 1][2]
    for bb in b.blocks:
        t = bb["t"]
        if t["t"] == "call" and t["to"] == to:
            return b.id, t["sp"]
    return b.id, span


def scan(ctx, body, target, chain=(), deep=False, init=None):
    """{position: message} of the feasible panics in body `target` when `body` runs"""
    out = {}
    f = ctx.f
    sites = ctx.panic_sites.setdefault(target.id, set())
    kinds = {}

    def want(c):
        k = kindof(c)
        if k:
            kinds[c.short] = k
        return k is not None

    def on_event(eng, st, hist, ev):
        if ev.kind != "call":
            return
        b, sp = innermost(f, st, ev.span)
        if b != target.id:
            return
        sites.add((sp, ev.short))
        m = judge(eng, st, hist, ev, kinds[ev.short])
        if m:
            out.setdefault((sp, ev.short), m)

    def on_panic(eng, st, what_, ops, span):
        b, sp = innermost(f, st, span)
        if b != target.id:
            return
        sites.add((sp, what_))
        m = assert_ok(eng, st, what_, ops)
        if m:
            out.setdefault((sp, what_), m)
    r = Trace(want=want, on_event=on_event, on_panic=on_panic, wantbranch=lambda t: True, relevant=lambda c: False, max_states=25000)
    r.relevant_body = lambda b: b.id in chain or (deep and b.file() == body.file() and b.id in f.raw)
    r.logs = lambda b: b.id == target.id
    r.max_hist = 1
    r.keep_all_refinements = True
    before = len(ctx.inconclusive)
    eng = ctx.run(r, body, None, what="panics of " + owner_path(f, target))
    ctx.entered = target.id in eng.bodies_seen
    ok = len(ctx.inconclusive) == before
    if not ok:
        del ctx.inconclusive[before:]
        if not (deep or chain):
            ctx.assumptions.append("%s: decided on the first %d abstract states" % (owner_path(f, target), r.max_states))
    return out, ok


def callers(f, b):
    """bodies that run this one: its callers, or what creates the closure"""
    out = []
    ids = {b.id}
    if b.kind == "coroutine":
        p = f.body(b.parent)
        if p is not None and p.is_async:
            ids = {p.id}
        else:
            return [p] if p is not None else []
    elif b.kind != "fn":
        p = f.body(b.parent)
        return [p] if p is not None else []
    for c in f.local_bodies():
        if any(cj.get("r", cj["id"]) in ids for cj in calls_of(c)):
            out.append(c)
    return out


def feasible(ctx, b, depth=3):
    """feasible panics in a body, in the light of who calls it"""
    out, ok = scan(ctx, b, b)
    if not out:
        return {}
    deep, ok = scan(ctx, b, b, deep=True)
    if ok:
        out = {k: m for k, m in out.items() if k in deep}
    frontier = [(b, (b.id, b.parent) if b.kind == "coroutine" else (b.id,))]
    for _ in range(depth):
        if not out:
            return {}
        nxt = []
        still = {}
        for cur, chain in frontier:
            cs = [c for c in callers(ctx.f, cur) if c.id not in chain]
            if not cs:
                return out
            for c in cs:
                got, ok = scan(ctx, c, b, chain)
                if not ok:
                    return out
                if not ctx.entered:
                    # it is not this function that runs the code (a task, a stored closure): nothing is known of its arguments
                    return out
                if any(k in out for k in got):
                    got2, ok = scan(ctx, c, b, chain, deep=True)
                    if ok:
                        got = got2
                hit = {k: m for k, m in got.items() if k in out}
                if hit:
                    still.update(hit)
                    nxt.append((c, chain + ((c.id, c.parent) if c.kind == "coroutine" else (c.id,))))
        out = {k: m for k, m in out.items() if k in still}
        frontier = nxt
    return out


def nonzero(st, d):
    d = unconv(d)
    if d.k == "c":
        return bool(d.a[0])
    v = st.ref.get(d)
    if v is not None and (v[0] == "not" and 0 in v[1] or v[0] == "is" and v[1] not in (0, False)):
        return True
    if d.k in ("call", "pure") and tail(d) in ("max", "clamp", "saturating_add", "next_power_of_two", "num_cpus", "size_in_bytes"):
        if tail(d) in ("size_in_bytes", "next_power_of_two") or any(nonzero(st, x) for x in args_of(d)[-2:]):
            return True
    if d.k in ("call", "pure") and tail(d) == "get":
        return True                     # NonZero::get
    if any(isinstance(k, V) and tail(k) == "is_empty" and w[0] == "is" and w[1] is False and tail(d) == "len" and same_buf(args_of(k)[0], args_of(d)[0])
           for k, w in st.ref.items()):
        return True
    return ge0(st, padd(poly(d), {1: 1}, -1))


def assert_ok(eng, st, what, ops):
    if what.startswith("overflow"):
        a, b = ops[0], ops[1] if len(ops) > 1 else None
        if all(x.k == "c" for x in ops):
            return None
        op = what.split(":")[1]
        if op == "Sub":
            if looped(a) or looped(b) or ge0(st, padd(poly(a), poly(b), -1)):
                return None
            return "may underflow (subtraction)"
        ty = what.split(":")[2] if what.count(":") > 1 else ""
        top = {"u8": 255, "u16": 65535, "u32": 2 ** 32 - 1, "i8": 127, "i16": 32767, "i32": 2 ** 31 - 1}.get(ty)
        if top is not None and op in ("Add", "Mul"):
            if looped(a) or looped(b):
                return None
            if op == "Add" and ge0(st, padd({1: top}, padd(poly(a), poly(b), 1), -1)):
                return None
            return "may overflow (%s of %s)" % (op.lower(), ty)
        return None
    if what.startswith("bounds"):
        ln, ix = ops[0], ops[1]
        if ln.k == "c" and ix.k == "c" and ix.a[0] < ln.a[0]:
            return None
        if looped(ix) or ge0(st, padd(padd(poly(ln), poly(ix), -1), {1: 1}, -1)):
            return None
        return "may be out of bounds (index)"
    if what.startswith(("div0", "rem0")):
        c = ops[-1]
        if c.k != "op" or c.a[0] != "Eq":
            return "may divide by zero" if c.k == "c" and c.a[0] is True else None
        a, b = c.a[1], c.a[2]
        d = unconv(a if b.k == "c" else b)
        if d.k == "c":
            return None if d.a[0] else "divides by zero"
        if looped(d) or nonzero(st, d):
            return None
        return "may divide by zero"
    return None


def check(ctx):
    ctx.explanation = ("Every operation that can panic (failed unwraps and expects, explicit panics, indexing and slicing, arithmetic checks, copies and "
                       "conversions of slices, time arithmetic) in every function reachable from where a peer's bytes, messages, requests and replies "
                       "enter, decided on all paths of the function, then together with the functions of its file, then together with its callers.")
    ctx.rules = ["no feasible panic in what is reachable from the entries"]
    ctx.assumptions = ["code generated by derives and the libraries themselves do not panic except on the listed operations",
                       "sizes and sums of sizes of data held in memory fit into usize", "locks are not poisoned, since nothing that holds one panics"]
    f = ctx.f
    ctx.panic_sites = {}
    scope = reach(f, roots(ctx))
    n = 0
    for i in sorted(scope):
        b = f.body(i)
        if b is None or i not in f.raw or not in_scope(b) or b.is_async and b.kind == "fn":
            continue
        n += 1
        for (sp, nm), m in feasible(ctx, b).items():
            ctx.violation("%s:%s" % (owner_path(f, b), nm), "%s %s" % (owner_path(f, b), m), sp)
    k = sum(len(x) for x in ctx.panic_sites.values())
    ctx.count("functions and tasks reachable from a peer", n, 150)
    ctx.count("operations that could panic", k, 15)
    ctx.oblige("no panic can be caused by a peer", True)
