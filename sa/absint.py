"""Path-sensitive abstract interpretation of the MIR facts.

One analysis = an entry function, a property automaton (class Rule) and this
engine.  The engine walks the control-flow graph of the entry with every
in-crate callee, async body and closure inlined (call-string contexts, no
recursion), keeping an abstract store of *terms*: constants, aggregates,
references to abstract locations, and symbolic terms recording where a value
comes from (parameter, call result, projection).  Branches on a symbolic term
fork and refine it; nothing is executed and no solver is involved: the abstract
states (program point, store, refinements, automaton state) form a finite set
that is enumerated to a fixpoint.
"""
import json
import re

from facts import path_match, strip_generics

MAXDEPTH = 120


class V:
    __slots__ = ("k", "a", "depth", "_atoms", "_refs", "__weakref__")

    def __repr__(self):
        return show(self)


_tab = {}


def mk(k, *a):
    key = (k, a)
    v = _tab.get(key)
    if v is None:
        v = V()
        v.k = k
        v.a = a
        d = 0
        for x in a:
            if isinstance(x, V):
                if x.depth > d:
                    d = x.depth
            elif isinstance(x, tuple):
                for y in x:
                    z = y[1] if isinstance(y, tuple) and len(y) == 2 else y
                    if isinstance(z, V) and z.depth > d:
                        d = z.depth
        v.depth = d + 1
        v._atoms = None
        v._refs = None
        _tab[key] = v
    return v


def kids(v):
    for x in v.a:
        if isinstance(x, V):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                z = y[1] if isinstance(y, tuple) and len(y) == 2 else y
                if isinstance(z, V):
                    yield z


_EMPTY = frozenset()


def atoms(v):
    if v._atoms is None:
        if v.k in ("param", "call", "mut", "top", "cbarg"):
            v._atoms = frozenset([v])
        else:
            s = _EMPTY
            for x in kids(v):
                s = s | atoms(x)
            v._atoms = s
    return v._atoms


def refs(v):
    """abstract roots referenced from the value"""
    if v._refs is None:
        s = frozenset([v.a[0]]) if v.k == "ref" else _EMPTY
        for x in kids(v):
            s = s | refs(x)
        v._refs = s
    return v._refs


def subterms(v, seen=None):
    if seen is None:
        seen = set()
    st = [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(kids(x))


def contains(v, pred):
    return any(pred(x) for x in subterms(v))


def show(v, d=0):
    if d > 6:
        return "…"
    k, a = v.k, v.a
    if k == "c":
        return json.dumps(a[0]) if not isinstance(a[0], str) else repr(a[0])
    if k == "agg":
        nm = a[1] or a[0]
        return "%s{%s}" % (nm, ",".join("%s:%s" % (f, show(x, d + 1)) for f, x in a[2]))
    if k == "param":
        return str(a[0])
    if k == "proj":
        return show(a[0], d + 1) + str(a[1])
    if k == "call":
        return "%s(%s)" % (a[0], ",".join(show(x, d + 1) for x in a[2]))
    if k == "pure":
        return "%s(%s)" % (a[0], ",".join(show(x, d + 1) for x in a[1]))
    if k == "mut":
        return "mut[%s#%d](%s)" % (a[0], a[2], ",".join(show(x, d + 1) for x in a[3]))
    if k == "ref":
        return "&%s%s" % (a[0], "".join(a[1]))
    if k == "upd":
        return "%s{..%s}" % (show(a[0], d + 1), ",".join("%s=%s" % (f, show(x, d + 1)) for f, x in a[1]))
    if k == "op":
        return "%s(%s)" % (a[0], ",".join(show(x, d + 1) for x in a[1:]))
    if k == "discr":
        return "discr(%s)" % show(a[0], d + 1)
    if k == "fn":
        return "fn:" + a[0]
    if k == "const":
        return a[0].rsplit("::", 1)[-1]
    return "%s%s" % (k, a if k in ("top", "cbarg") else "")


def C(x):
    return mk("c", x, type(x).__name__)


TRUE, FALSE = C(True), C(False)
UNIT = mk("agg", "()", "", ())
BOTTOM = mk("bottom")


def agg(adt, variant, fields):
    return mk("agg", adt, variant, tuple(fields))


def is_enum_agg(v):
    return v.k == "agg" and v.a[1] != "" and v.a[0] not in ("closure", "coroutine")


def proj(v, step):
    k = v.k
    if k == "agg":
        adt, variant, fields = v.a
        if step[0] == "@":
            if variant and adt not in ("closure", "coroutine"):
                return v if variant == step[1:] else BOTTOM
            return v
        if step[0] == ".":
            n = step[1:]
            for f, x in fields:
                if f == n:
                    return x
            return mk("top", "nofield")
        if step[0] == "#" and step[1:].isdigit():
            i = int(step[1:])
            if i < len(fields):
                return fields[i][1]
        if step == "[]" and fields:
            x0 = fields[0][1]
            if all(x is x0 for _, x in fields):
                return x0
        return mk("proj", v, step)
    if k == "upd":
        for f, x in v.a[1]:
            if f == step:
                return x
        return proj(v.a[0], step)
    if k == "bottom":
        return v
    if k == "top":
        return v
    if v.depth > MAXDEPTH * 2:
        return mk("top", "deep")
    return mk("proj", v, step)


def update(v, path, val):
    if not path:
        return val
    step, rest = path[0], path[1:]
    if step == "[]":
        return mk("mut", "index", "", 0, (clip(v), clip(val)))
    if v.k == "agg":
        adt, variant, fields = v.a
        if step[0] == "@":
            if variant == "" or variant == step[1:] or adt in ("closure", "coroutine"):
                return update(v, rest, val)
            # writing a field of a variant that is about to become active
            return agg(adt, step[1:], ()) if not rest else update(agg(adt, step[1:], ()), rest, val)
        n = step[1:]
        out = []
        done = False
        for f, x in fields:
            if f == n:
                out.append((f, update(x, rest, val)))
                done = True
            else:
                out.append((f, x))
        if not done:
            out.append((n, update(mk("top", "nofield"), rest, val)))
        return mk("agg", adt, variant, tuple(out))
    base, ov = (v.a[0], v.a[1]) if v.k == "upd" else (v, ())
    old = proj(v, step)
    new = update(old, rest, val)
    d = dict(ov)
    d[step] = new
    return mk("upd", base, tuple(sorted(d.items(), key=lambda t: t[0])))


def clip(v):
    if v.depth > MAXDEPTH:
        return mk("top", "deep")
    return v


class Callee:
    """a resolved call target"""

    def __init__(self, j, facts):
        self.j = j
        self.path = j["fn"]
        self.name = j["name"]
        self.trait = j.get("trait", "")
        self.id = j["id"]
        self.rid = j.get("r", j["id"])
        self.rp = j.get("rp", "")
        self.args = j.get("args", [])
        self.self_adt = j.get("self_adt", "")
        self.arg0 = j.get("arg0_adt", "")
        self.ctor = j.get("ctor")
        self.from_id = j.get("from_id")
        self.from_tys = j.get("from")
        self.local = self.rid in facts.raw
        self.ext = self.rid in facts.ext
        sp = strip_generics(self.path)
        if self.trait:
            self.short = self.trait.rsplit("::", 1)[-1] + "::" + self.name
        elif self.self_adt:
            self.short = self.self_adt.rsplit("::", 1)[-1] + "::" + self.name
        else:
            self.short = "::".join(sp.rsplit("::", 2)[-2:])
        self.spath = sp

    def __repr__(self):
        return self.short


TRANSPARENT = {
    # pointer / value identity for the purposes of provenance
    ("Deref", "deref"), ("DerefMut", "deref_mut"), ("Clone", "clone"), ("ToOwned", "to_owned"),
    ("AsRef", "as_ref"), ("AsMut", "as_mut"), ("Borrow", "borrow"), ("BorrowMut", "borrow_mut"),
    ("IntoFuture", "into_future"), ("Unpin", ""),
}
TRANSPARENT_SHORT = {
    "Pin::new_unchecked", "Pin::new", "Pin::as_mut", "Pin::get_mut", "Pin::into_inner", "Pin::as_ref",
    "Pin::get_unchecked_mut",
    "Box::new", "Box::pin", "Box::leak", "Arc::new", "Rc::new", "Box::into_pin", "Arc::as_ref",
    "convert::identity", "Vec::as_slice", "Vec::as_mut_slice", "String::as_str", "String::as_bytes",
    "String::as_mut_str", "PathBuf::as_path", "Vec::into_boxed_slice", "slice::to_vec", "hint::black_box",
    "Path::to_path_buf", "String::into_bytes", "slice::iter", "Vec::iter", "Option::as_deref",
    "Option::as_deref_mut", "str::to_string", "[T]::to_vec",
}
PURE_NAMES = {
    "eq", "ne", "lt", "le", "gt", "ge", "cmp", "partial_cmp", "is_empty", "len", "contains_key", "contains",
    "starts_with", "ends_with", "kind", "is_ipv4", "is_ipv6", "success", "code", "is_some", "is_none", "is_ok",
    "is_err", "to_string", "as_secs", "as_millis", "from_secs", "from_millis", "min", "max", "index", "get",
    "as_str", "as_bytes", "into_iter", "iter", "values", "keys", "as_slice", "concat", "join", "file_type",
    "is_dir", "is_file", "is_symlink", "parent", "fmt", "is_alive", "from", "into", "range", "as_path", "as_deref",
    "checked_add", "checked_sub", "checked_mul", "saturating_add", "saturating_sub", "wrapping_add", "wrapping_sub",
}
# &mut receivers that a call does not change as far as provenance goes
STABLE_MUT = {"next", "recv", "poll_recv", "accept", "get_mut", "iter_mut", "values_mut", "index_mut", "lock",
              "deref_mut", "as_mut", "by_ref", "get_context", "poll", "flush", "borrow_mut", "stdin", "recv_from", "read",
              "entry", "last_mut", "first_mut", "as_mut_slice", "retain", "drain", "write", "fill_bytes", "id"}

# conversions between the forms in which text, bytes, paths and lists are held
TEXT = re.compile(r"(&('\w+ )?(mut )?)?(str|\[.*\]|std::string::String|std::vec::Vec<.*>|std::path::Path(Buf)?|std::ffi::OsStr(ing)?|"
                  r"std::(boxed::Box|sync::Arc|rc::Rc)<(str|\[.*\])>|std::borrow::Cow<.*>)$")


def plain_type(t):
    """a type's text without what does not tell it from another here: lifetimes"""
    t = re.sub(r"'\w+ ?", "", t)
    return re.sub(r"\(dyn ([^()]*?) \+ \)", r"dyn \1", t).replace(" + )", ")")


def same_text(cal):
    tys = cal.from_tys if cal.short == "Into::into" else cal.args[1::-1] if len(cal.args) == 2 else None
    return bool(tys) and len(tys) == 2 and all(TEXT.match(x) for x in tys)


NEG = {"Ne": "Eq", "Ge": "Lt", "Le": "Gt"}


def mkop(op, a, b):
    if a.k == "c" and b.k == "c" and not isinstance(a.a[0], str):
        x, y = a.a[0], b.a[0]
        try:
            if op in ("Add", "AddUnchecked"):
                return C(x + y)
            if op in ("Sub", "SubUnchecked"):
                return C(x - y)
            if op in ("Mul", "MulUnchecked"):
                return C(x * y)
            if op == "Eq":
                return C(x == y)
            if op == "Ne":
                return C(x != y)
            if op == "Lt":
                return C(x < y)
            if op == "Le":
                return C(x <= y)
            if op == "Gt":
                return C(x > y)
            if op == "Ge":
                return C(x >= y)
            if op == "BitAnd":
                return C(x & y)
            if op == "BitOr":
                return C(x | y)
            if op == "BitXor":
                return C(x ^ y)
            if op == "Div" and y:
                return C(x // y)
            if op == "Rem" and y:
                return C(x % y)
        except TypeError:
            pass
    if op in ("Eq", "Ne") and b.k == "c" and isinstance(b.a[0], bool):
        same = b.a[0] == (op == "Eq")
        return a if same else mknot(a)
    if op in ("Eq", "Ne") and a.k == "c" and isinstance(a.a[0], bool):
        same = a.a[0] == (op == "Eq")
        return b if same else mknot(b)
    if op in ("BitAnd", "BitOr"):
        for x, y in ((a, b), (b, a)):
            if x is TRUE:
                return y if op == "BitAnd" else TRUE
            if x is FALSE:
                return FALSE if op == "BitAnd" else y
    if op == "Ne":
        return mknot(mkop("Eq", a, b))
    if op == "Gt":
        return mkop("Lt", b, a)
    if op == "Ge":
        return mknot(mkop("Lt", a, b))
    if op == "Le":
        return mknot(mkop("Lt", b, a))
    if op == "Eq":
        # canonical operand order: constants last
        if a.k == "c" and b.k != "c":
            a, b = b, a
    if op in ("AddUnchecked", "SubUnchecked", "MulUnchecked"):
        op = op[:3]
    return mk("op", op, clip(a), clip(b))


ARITH = {"Add", "Sub", "Mul", "Div", "Rem", "Shl", "Shr"}


def numeric(v):
    if v.k == "c":
        return isinstance(v.a[0], int) and not isinstance(v.a[0], bool)
    if v.k == "op":
        return v.a[0] in ARITH
    return v.k == "pure" and v.a[0] == "loopvar"


def num_leaves(v):
    if v.k == "op" and v.a[0] in ARITH:
        return num_leaves(v.a[1]) | num_leaves(v.a[2])
    if v.k == "pure" and v.a[0] == "loopvar":
        return set(v.a[1][1:])
    if v.k == "c":
        return set()
    return {v}


def rebuild(v, fn):
    """the term with fn applied to each child"""
    a = []
    for x in v.a:
        if isinstance(x, V):
            a.append(fn(x))
        elif isinstance(x, tuple):
            a.append(tuple(fn(y) if isinstance(y, V) else
                           ((y[0], fn(y[1])) if isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], V) else y) for y in x))
        else:
            a.append(x)
    return mk(v.k, *a)


def subst(v, fn):
    """replace every maximal subterm for which fn returns a term"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = fn(x)
            if r is None:
                r = rebuild(x, go) if any(True for _ in kids(x)) else x
            memo[x] = r
        return r
    return go(v)


def mut_base(v):
    while v.k == "mut" and v.a[3]:
        v = v.a[3][0]
    return v


def mut_elems(v):
    """what was put into a container, besides the container itself"""
    out = []
    while v.k == "mut" and v.a[3]:
        out.append((v.a[0], v.a[3][1:]))
        v = v.a[3][0]
    return out


def mknot(a):
    if a.k == "c" and isinstance(a.a[0], bool):
        return C(not a.a[0])
    if a.k == "op" and a.a[0] == "Not":
        return a.a[1]
    return mk("op", "Not", a)


class Frame(tuple):
    __slots__ = ()
    # (body_id, fid, ret_bb, ret_term_flag, call_bb, wrap, callee_short)


class State:
    __slots__ = ("stack", "bb", "term", "mem", "ref", "auto", "trail")

    def copy(self):
        s = State()
        s.stack = self.stack
        s.bb = self.bb
        s.term = self.term
        s.mem = dict(self.mem)
        s.ref = dict(self.ref)
        s.auto = self.auto
        s.trail = self.trail
        return s


class Budget(Exception):
    pass


_calls = {}


def calls_of(b):
    """callee records of every call and function constant in the body"""
    r = _calls.get(b)
    if r is None:
        r = []

        def op(o):
            if o.get("k") == "fn":
                r.append(o["f"])
        for bb in b.blocks:
            for s in bb["s"]:
                if s[0] == "=":
                    rv = s[2]
                    for o in rv.get("ops", ()):
                        op(o)
                    for x in ("o", "a", "b"):
                        if isinstance(rv.get(x), dict):
                            op(rv[x])
            t = bb["t"]
            if t["t"] == "call":
                op(t["f"])
                for o in t["a"]:
                    op(o)
        _calls[b] = r
    return r


def closures_of(b):
    out = []
    for bb in b.blocks:
        for s in bb["s"]:
            if s[0] == "=" and s[2]["r"] == "agg" and s[2]["kind"] in ("closure", "coroutine", "coroutine_closure"):
                out.append(s[2]["id"])
    return out


class Call:
    """what a rule sees of a call"""
    __slots__ = ("callee", "args", "terms", "site", "span", "fid", "body", "mut", "types", "res")


class Rule:
    """a property automaton; override what is needed"""
    auto0 = ()
    views = ()      # calls whose result may be used to change their receiver
    max_states = 400000
    max_inline = 24
    keep_all_refinements = False
    known = {}          # what is assumed about the parameters
    ages = None         # calls whose earlier results are told apart from the latest one
    relevant = None     # callee -> bool: the calls the property is about (None: everything)

    def relevant_body(self, body):
        return False

    def logs(self, body):
        """is the code that only runs when logging is on of interest in this body?"""
        return False

    def init(self, eng, st):
        return self.auto0

    def classify(self, eng, st, call):
        """None | 'opaque' | 'inline' | ('value', V)"""
        return None

    def event(self, eng, st, call):
        """an opaque call is about to return; may set st.auto; may return a V"""
        return None

    def enter(self, eng, st, call):
        pass

    def leave(self, eng, st, callee_short, body, val):
        pass

    def branch(self, eng, st, term, val):
        pass

    def awaited(self, eng, st, term, span):
        pass

    def ret(self, eng, st, val):
        pass

    def wrote(self, eng, st, root, path, val, span):
        pass

    def panic(self, eng, st, what, ops, span):
        pass

    def dropped(self, eng, st, root, path, ty, span):
        pass

    def relevant_closure(self, eng, body_id):
        return self.relevant is None or body_id in eng.relset()

    def auto_values(self, auto):
        return ()

    def runs_closures(self, callee):
        """may this opaque callee run the closures and futures it is given on the caller's behalf?"""
        return True


class Engine:
    def __init__(self, facts, rule, entry, args=None, trace=False):
        self.f = facts
        self.rule = rule
        self.entry = entry
        self.args = args
        self.fids = {}
        self.tysub = {}
        self.made = {}
        self._froms = None
        self.callees = {}
        self.violations = []
        self.nstates = 0
        self.ncalls = set()
        self.bodies_seen = set()
        self.sites = set()
        self.unmodelled = {}
        self.trace = trace
        self._relset = None
        self._simple = {}
        self._heads = {}
        self._widen = {}
        self._loopw = {}
        self._idents = {}
        self._loopsin = {}

    # ------------------------------------------------------------- utilities
    def fid(self, parent, body, bb, tag=""):
        key = (parent, body, bb, tag)
        i = self.fids.get(key)
        if i is None:
            i = len(self.fids) + 1
            self.fids[key] = i
        return i

    # ---- type arguments of generic helpers -------------------------------------
    def enter_generic(self, st, fid, body, cal, argv):
        """the types a generic function (or the closures it made) is entered with"""
        t = None
        if cal is not None and cal.rid == cal.id and body.generics and len(body.generics) == len(cal.args):
            t = {g: self.concrete(st, a) for g, a in zip(body.generics, cal.args)}
        elif body.kind != "fn" and argv:
            t = self.made.get(self.deref(st, argv[0]))
        if t:
            self.tysub[fid] = t
        else:
            self.tysub.pop(fid, None)

    def concrete(self, st, ty):
        """a type with the type parameters of the functions being followed put in"""
        if not self.tysub:
            return ty
        for fr in reversed(st.stack):
            m = self.tysub.get(fr[1])
            if m:
                ty = re.sub(r"(?<![\w:])(%s)(?![\w:])" % "|".join(re.escape(k) for k in sorted(m, key=len, reverse=True)), lambda x: m[x.group(1)], ty)
        return ty

    def conversion(self, st, cal):
        """what `from`, `into` and `?` convert between: (source, target, the local conversion)"""
        if cal.short == "From::from" and len(cal.args) == 2:
            src, dst = cal.args[1], cal.args[0]
        elif cal.from_tys:
            src, dst = cal.from_tys
        else:
            return None
        if not self.tysub:
            return src, dst, cal.from_id if cal.short != "From::from" else None
        src, dst = self.concrete(st, src), self.concrete(st, dst)
        fid = cal.from_id if cal.short != "From::from" else None
        if fid not in self.f.raw:
            fid = self.froms().get((plain_type(src), plain_type(dst)))
        return src, dst, fid

    def froms(self):
        if self._froms is None:
            self._froms = {}
            for b in self.f.fns("from"):
                if b.trait.endswith("convert::From") and b.trait_args and not b.ext:
                    self._froms[(plain_type(b.trait_args[-1]), plain_type(b.self_ty))] = b.id
        return self._froms

    def callee(self, j):
        key = id(j)
        c = self.callees.get(key)
        if c is None:
            c = Callee(j, self.f)
            self.callees[key] = c
        return c

    def report(self, key, msg, st, span=""):
        self.violations.append((key, msg, span, self.trail_list(st)))

    def trail_list(self, st):
        out = []
        t = st.trail
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out[-40:]

    def note(self, st, what):
        st.trail = (st.trail, what)

    # ------------------------------------------------------------ memory model
    def getroot(self, st, root):
        v = st.mem.get(root)
        if v is None:
            if root[0] == "D":
                return root[1]
            return mk("top", "undef")
        return v

    def read(self, st, root, path):
        v = self.getroot(st, root)
        for s in path:
            v = proj(v, s)
        return v

    def write(self, st, root, path, val, span=""):
        if path:
            st.mem[root] = update(self.getroot(st, root), path, val)
        else:
            st.mem[root] = val
        self.rule.wrote(self, st, root, path, val, span)

    def loc(self, st, fid, place):
        root, path = ("L", fid, place[0]), ()
        for e in place[1]:
            if e == "*":
                v = self.read(st, root, path)
                n = 0
                if v.k == "ref":
                    root, path = v.a[0], v.a[1]
                elif v.k == "agg" or v.k == "c":
                    pass  # pointer identified with its pointee (boxes, promoteds)
                else:
                    root, path = ("D", v), ()
            elif isinstance(e, list):
                iv = self.read(st, ("L", fid, e[1]), ())
                if iv.k == "c":
                    path = path + ("#%d" % iv.a[0],)
                else:
                    path = path + ("[]",)
            else:
                path = path + (e,)
        return root, path

    def place_val(self, st, fid, place):
        root, path = self.loc(st, fid, place)
        return self.read(st, root, path)

    def deref(self, st, v, n=6):
        while v.k == "ref" and n:
            v = self.read(st, v.a[0], v.a[1])
            n -= 1
        if v.k not in ("ref", "agg", "c", "top"):
            w = st.mem.get(("D", v))
            if w is not None and w is not v:
                return w
        return v

    def term(self, st, v, d=5):
        """the value with references replaced by what they point at"""
        if v.k == "ref":
            if d == 0:
                return mk("top", "deepref")
            return self.term(st, self.read(st, v.a[0], v.a[1]), d - 1)
        if v.k == "agg" and refs(v):
            return agg(v.a[0], v.a[1], [(f, self.term(st, x, d - 1) if d else mk("top", "deepref")) for f, x in v.a[2]])
        if refs(v):
            if v.k == "upd":
                return mk("upd", self.term(st, v.a[0], d - 1) if d else v.a[0],
                          tuple((f, self.term(st, x, d - 1) if d else x) for f, x in v.a[1]))
            return v
        if v.k not in ("agg", "c", "top"):
            w = st.mem.get(("D", v))
            if w is not None and w is not v:
                return w
        return v

    # -------------------------------------------------------------- operands
    def constant(self, st, o):
        if o["k"] == "fn":
            c = self.callee(o["f"])
            key = c.rid
            self._fns[key] = o["f"]
            return mk("fn", key)
        if "promoted" in o:
            return self.promoted("%s#promoted%d" % tuple(o["promoted"]))
        if "variant" in o:
            return agg(o["adt"], o["variant"], ())
        if "s" in o:
            return C(o["s"])
        if "bytes" in o:
            return mk("c", tuple(o["bytes"]), "bytes")
        if "v" in o:
            v = o["v"]
            if "const" in o:
                return mk("c", v, type(v).__name__)
            return C(v)
        if "const" in o:
            return mk("const", o["const"])
        if o.get("zst"):
            ty = o["ty"]
            if ty == "()":
                return UNIT
            return agg(ty, "", ())
        return mk("const", o.get("tyconst") or o.get("repr") or o["ty"])

    def promoted(self, pid):
        if pid in self._prom:
            return self._prom[pid]
        self._prom[pid] = mk("top", pid)
        b = self.f.body(pid)
        v = mk("top", pid)
        if b is not None:
            st = State()
            st.stack = ()
            st.mem = {}
            st.ref = {}
            st.auto = ()
            st.trail = None
            fid = self.fid(0, pid, 0, "prom")
            bb = 0
            ok = True
            for _ in range(50):
                blk = b.blocks[bb]
                for s in blk["s"]:
                    if s[0] == "=":
                        val = self.rvalue(st, fid, b, s[2])
                        root, path = self.loc(st, fid, s[1])
                        st.mem[root] = update(self.getroot(st, root), path, val)
                t = blk["t"]
                if t["t"] == "ret":
                    break
                if t["t"] in ("goto", "drop", "assert"):
                    bb = t["to"]
                elif t["t"] == "call" and t["to"] >= 0 and t["f"]["k"] == "fn":
                    c = self.callee(t["f"]["f"])
                    args = tuple(self.term(st, self.operand(st, fid, a)) for a in t["a"])
                    if c.ctor:
                        val = agg(c.ctor[0], c.ctor[1], [(str(i), x) for i, x in enumerate(args)])
                    else:
                        val = mk("pure", c.short, args)
                    root, path = self.loc(st, fid, t["d"])
                    st.mem[root] = update(self.getroot(st, root), path, val)
                    bb = t["to"]
                else:
                    ok = False
                    break
            if ok:
                v = self.term(st, self.getroot(st, ("L", fid, 0)), 8)
        self._prom[pid] = v
        return v

    def operand(self, st, fid, o):
        if o["k"] in ("cp", "mv"):
            return self.place_val(st, fid, o["p"])
        return self.constant(st, o)

    def rvalue(self, st, fid, b, r):
        k = r["r"]
        if k == "use":
            return self.operand(st, fid, r["o"])
        if k == "ref":
            root, path = self.loc(st, fid, r["p"])
            if root[0] == "D" and not path:
                return root[1]
            return mk("ref", root, path)
        if k == "agg":
            kind = r["kind"]
            vals = [self.operand(st, fid, o) for o in r["ops"]]
            if kind == "adt":
                names = r.get("names", [])
                fields = list(zip(names, vals))
                return agg(r["adt"], r["variant"] if r["enum"] else "", fields)
            if kind in ("closure", "coroutine", "coroutine_closure"):
                kk = "coroutine" if kind == "coroutine" else "closure"
                made = agg(kk, r["id"], [(str(i), x) for i, x in enumerate(vals)])
                if fid in self.tysub:
                    self.made.setdefault(made, self.tysub[fid])
                return made
            return agg("()" if kind == "tuple" else kind, "", [(str(i), x) for i, x in enumerate(vals)])
        if k == "discr":
            v = self.place_val(st, fid, r["p"])
            if v.k == "ref":
                v = self.deref(st, v)
            if v.k == "upd":
                # only fields changed: same variant as the base
                v = v.a[0] if not any(f[0] == "@" and False for f, _ in v.a[1]) else v
            return mk("discr", v, r["adt"])
        if k == "cast":
            v = self.operand(st, fid, r["o"])
            if r["ck"] == "IntToInt" and r["ty"] in ("u8", "i8", "u16", "i16") and not (v.k == "c" or v.k == "op" and v.a[0] == "Narrow"):
                # may cut off what the small type cannot hold
                src = r["o"].get("p")
                ty = b.locals[src[0]][0] if src and not src[1] else r["o"].get("ty", "")
                if ty not in ("u8", "i8", "bool", r["ty"], "i16", "u16"):
                    return mk("op", "Narrow", v)
            return v
        if k == "bin":
            a = self.operand(st, fid, r["a"])
            c = self.operand(st, fid, r["b"])
            op = r["op"]
            if op.endswith("WithOverflow"):
                return agg("()", "", [("0", mkop(op[:3], a, c)), ("1", FALSE)])
            return mkop(op, a, c)
        if k == "un":
            a = self.operand(st, fid, r["a"])
            if r["op"] == "Not":
                return mknot(a)
            return mk("op", r["op"], a)
        if k == "repeat":
            v = self.operand(st, fid, r["o"])
            return mk("op", "repeat", v, C(r["n"]))
        return mk("top", "rvalue")

    # ----------------------------------------------------------------- running
    def run(self):
        self._fns = {}
        self._prom = {}
        self._rel = {}
        b = self.entry
        st = State()
        st.mem = {}
        st.ref = dict(self.rule.known)
        st.trail = None
        fid = self.fid(0, b.id, 0)
        st.stack = ((b.id, fid, -1, False, 0, None, ""),)
        st.bb = 0
        st.term = False
        st.auto = ()
        for i in range(1, b.argc + 1):
            nm = b.locals[i][1] or ("arg%d" % i)
            v = None
            if self.args and nm in self.args:
                v = self.args[nm]
            elif self.args and i in self.args:
                v = self.args[i]
            if v is None:
                v = mk("param", nm)
            st.mem[("L", fid, i)] = v
        # a coroutine entry: its captured variables are the parameters
        if b.kind == "coroutine" and not (self.args and 1 in self.args):
            names = {}
            for nm, pl in b.upvars:
                if pl[0] == 1 and pl[1] and pl[1][0][0] == ".":
                    names[pl[1][0][1:]] = nm
            fields = []
            n = max([int(x) for x in names] + [-1]) + 1
            for i in range(n):
                nm = names.get(str(i), "cap%d" % i)
                v = self.args.get(nm) if self.args else None
                fields.append((str(i), v if v is not None else mk("param", nm)))
            st.mem[("L", fid, 1)] = agg("coroutine", b.id, fields)
        st.auto = self.rule.init(self, st)
        self.seen = set()
        self.work = []
        self.push(st)
        while self.work:
            st = self.work.pop()
            self.step(st)
        return self

    def live_mem(self, st):
        mem = st.mem
        keep = set()
        todo = []
        ats = set()
        top = len(st.stack) - 1
        for i, fr in enumerate(st.stack):
            b = self.f.body(fr[0])
            if i == top:
                bb = st.bb
                if st.term:
                    # at the terminator: be conservative
                    lv = b.live_in()[bb] | self.term_uses(b, bb)
                else:
                    lv = b.live_in()[bb]
            else:
                nxt = st.stack[i + 1]
                bb = nxt[2]
                if nxt[3]:
                    lv = b.live_in()[bb] | self.term_uses(b, bb)
                else:
                    lv = b.live_in()[bb] if bb >= 0 else ()
                d = b.blocks[nxt[4]]["t"].get("d")
                if d is not None and d[1]:
                    lv = set(lv)
                    lv.add(d[0])
            fid = fr[1]
            for l in lv:
                r = ("L", fid, l)
                if r in mem and r not in keep:
                    keep.add(r)
                    todo.append(r)
        for v in self.rule.auto_values(st.auto):
            for r in refs(v):
                if r not in keep and r in mem:
                    keep.add(r)
                    todo.append(r)
            ats |= atoms(v)
        while todo:
            r = todo.pop()
            v = mem[r]
            ats |= atoms(v)
            for q in refs(v):
                if q in mem:
                    if q not in keep:
                        keep.add(q)
                        todo.append(q)
                elif q[0] == "D":
                    ats |= atoms(q[1])
            if not todo:
                # heap cells of reachable pointers
                for q in mem:
                    if q[0] == "D" and q not in keep and all(a.k == "param" or a in ats for a in atoms(q[1])):
                        keep.add(q)
                        todo.append(q)
        for q in mem:
            if q[0] == "D" and q not in keep and all(a.k == "param" or a in ats for a in atoms(q[1])):
                keep.add(q)
                ats |= atoms(mem[q])
        return keep, ats

    def term_uses(self, b, bb):
        t = b.blocks[bb]["t"]
        s = set()
        if t["t"] == "call":
            for o in [t["f"]] + t["a"]:
                if o["k"] in ("cp", "mv"):
                    s.add(o["p"][0])
            if t["to"] >= 0:
                s |= b.live_in()[t["to"]]
        return s

    # ---- widening of numbers carried around a loop -------------------------
    def loop_heads(self, b):
        r = self._heads.get(b.id)
        if r is None:
            r = set()
            color = {0: 1}
            stack = [(0, iter(b.succ(0)))]
            while stack:
                i, it = stack[-1]
                for j in it:
                    cj = color.get(j)
                    if cj == 1:
                        r.add(j)
                    elif cj is None:
                        color[j] = 1
                        stack.append((j, iter(b.succ(j))))
                        break
                else:
                    color[i] = 2
                    stack.pop()
            self._heads[b.id] = r
        return r

    def widen(self, st):
        fr = st.stack[-1]
        b = self.f.body(fr[0])
        if st.term or st.bb not in self.loop_heads(b):
            return
        fid = fr[1]
        changed = []
        for root, v in list(st.mem.items()):
            if root[0] == "L" and root[1] != fid:
                continue
            if root[0] not in ("L", "D"):
                continue
            if root[0] == "L" and root[2] not in self.loop_writes(b, st.bb):
                continue
            w = self.widened((fid, st.bb, root), v, changed, 3)
            if w is not v:
                st.mem[root] = w
        # what was learned about the values of the previous round says nothing about this one
        here = (fid, st.bb)
        if st.ref:
            for k in [k for k in st.ref if here in self.loops_in(k)]:
                del st.ref[k]

    def loop_writes(self, b, head):
        """locals that the loop with this head may change"""
        key = (b.id, head)
        r = self._loopw.get(key)
        if r is not None:
            return r
        preds = {}
        for i in range(len(b.blocks)):
            for j in b.succ(i):
                preds.setdefault(j, set()).add(i)
        fwd, todo = set(), [head]
        while todo:
            i = todo.pop()
            if i not in fwd:
                fwd.add(i)
                todo.extend(b.succ(i))
        body, todo = {head}, [i for i in preds.get(head, ()) if i in fwd]
        # a predecessor that the head reaches only through an enclosing loop's own head
        # is kept: this only widens more
        while todo:
            i = todo.pop()
            if i not in body and i in fwd:
                body.add(i)
                todo.extend(preds.get(i, ()))
        dom = self.dominated(b, head)
        body = {i for i in body if i in dom}
        r = set()
        for i, bb in enumerate(b.blocks):
            for s in bb["s"]:
                if s[0] == "=":
                    if i in body and "*" not in s[1][1]:
                        r.add(s[1][0])
                    if s[2]["r"] == "ref" and s[2].get("m") and "*" not in s[2]["p"][1]:
                        r.add(s[2]["p"][0])
                elif s[0] == "sd" and i in body:
                    r.add(s[1][0])
            t = bb["t"]
            if i in body and t["t"] in ("call", "yield") and t.get("d"):
                r.add(t["d"][0])
        self._loopw[key] = r
        return r

    def dominated(self, b, head):
        """blocks reached only through the head"""
        other, todo = set(), [0] if head != 0 else []
        while todo:
            i = todo.pop()
            if i in other or i == head:
                continue
            other.add(i)
            todo.extend(b.succ(i))
        return {i for i in range(len(b.blocks)) if i not in other}

    def loops_in(self, v):
        r = self._loopsin.get(v)
        if r is None:
            r = frozenset()
            if v.k == "c":
                if v in self._idents:
                    r = frozenset([self._idents[v]])
            else:
                for x in v.a:
                    if isinstance(x, V):
                        r |= self.loops_in(x)
                for x in kids(v):
                    r |= self.loops_in(x)
                if v.k == "mut" and isinstance(v.a[1], V):
                    r |= self.loops_in(v.a[1])
            self._loopsin[v] = r
        return r

    def widened(self, key, v, changed, d):
        if numeric(v):
            kind = "n"
        elif v.k == "mut":
            kind = "m"
        elif v.k in ("agg", "upd") and d and not (v.k == "agg" and v.a[0] in ("closure", "coroutine")):
            pos = 1 if v.k == "upd" else 2
            fl = []
            diff = False
            for n, x in v.a[pos]:
                w = self.widened(key + (n,), x, changed, d - 1)
                diff = diff or w is not x
                fl.append((n, w))
            if not diff:
                return v
            a = list(v.a)
            a[pos] = tuple(fl)
            return mk(v.k, *a)
        else:
            kind = "g"
        seen = self._widen.setdefault((key, kind), [])
        if v in seen and len(seen) <= 3:
            return v
        if kind == "g" and not any(contains(v, lambda x, y=y: x is y) for y in seen if y.k not in ("param", "c") and y is not v
                                   and any(True for _ in kids(y))):
            if len(seen) < 3 and v.depth > 1:
                seen.append(v)
            return v
        if len(seen) <= 3:
            seen.append(v)
            if len(seen) <= 3:
                return v
        ident = C(json.dumps(key, default=show))
        self._idents[ident] = (key[0], key[1])
        if kind == "n":
            ls = set()
            for x in seen:
                ls |= num_leaves(x)
            w = mk("pure", "loopvar", (ident,) + tuple(sorted(ls, key=show)))
        elif kind == "m":
            base = mut_base(seen[0])
            me = mk("pure", "loopself", (ident, base))
            els = []
            for x in seen:
                for nm, e in mut_elems(x):
                    if nm == "loopacc":
                        es = e
                    else:
                        es = e
                    for y in es:
                        y = subst(y, lambda z: me if z.k == "mut" and mut_base(z) is base else None)
                        if y not in els:
                            els.append(y)
            w = mk("mut", "loopacc", ident, 0, (base,) + tuple(els))
        else:
            me = mk("pure", "loopself", (ident,))
            els = []
            for i, x in enumerate(seen):
                y = subst(x, lambda z, x=x: me if z is not x and z in seen else None)
                if y not in els:
                    els.append(y)
            w = mk("pure", "loopval", (ident,) + tuple(els))
        changed.append(w)
        return w

    def push(self, st):
        self.widen(st)
        keep, ats = self.live_mem(st)
        if len(keep) != len(st.mem):
            st.mem = {k: v for k, v in st.mem.items() if k in keep}
        if st.ref and not self.rule.keep_all_refinements:
            st.ref = {k: v for k, v in st.ref.items()
                      if all(a.k == "param" or a in ats for a in atoms(k))}
        key = (st.stack, st.bb, st.term, frozenset(st.mem.items()), frozenset(st.ref.items()), st.auto)
        if key in self.seen:
            return
        self.seen.add(key)
        self.nstates += 1
        if self.nstates > self.rule.max_states:
            raise Budget("state budget exceeded in %s" % self.entry.path)
        self.work.append(st)

    def step(self, st):
        fr = st.stack[-1]
        b = self.f.body(fr[0])
        fid = fr[1]
        self.bodies_seen.add(b.id)
        blk = b.blocks[st.bb]
        if not st.term:
            for s in blk["s"]:
                k = s[0]
                if k == "=":
                    v = self.rvalue(st, fid, b, s[2])
                    if v is BOTTOM:
                        return
                    root, path = self.loc(st, fid, s[1])
                    self.write(st, root, path, v, s[3] if len(s) > 3 else "")
                elif k == "dead" or k == "live":
                    st.mem.pop(("L", fid, s[1]), None)
                elif k == "sd":
                    root, path = self.loc(st, fid, s[1])
                    v = self.read(st, root, path)
                    if v.k == "agg":
                        self.write(st, root, path, agg(v.a[0], s[2], v.a[2]))
        st.term = False
        t = blk["t"]
        k = t["t"]
        if k == "goto":
            st.bb = t["to"]
            self.push(st)
        elif k == "switch":
            self.switch(st, fid, t)
        elif k == "call":
            self.call(st, b, fid, t)
        elif k == "drop":
            root, path = self.loc(st, fid, t["p"])
            self.rule.dropped(self, st, root, path, t["ty"], b.span)
            st.bb = t["to"]
            self.push(st)
        elif k == "assert":
            ops = [self.operand(st, fid, o) for o in t["mo"]]
            o = t["mo"][0] if t["mo"] else {}
            ty = o.get("ty", "") if o.get("k") == "c" else (b.locals[o["p"][0]][0] if o and not o["p"][1] else "")
            if t["m"] in ("div0", "rem0"):
                ops.append(self.operand(st, fid, t["c"]))
            self.rule.panic(self, st, t["m"] + (":" + ty if ty else ""), [self.term(st, x) for x in ops], t["sp"])
            st.bb = t["to"]
            self.push(st)
        elif k == "yield":
            st.bb = t["to"]
            self.push(st)
        elif k == "ret":
            self.do_return(st, b, fid)
        # unreachable / resume / other: path ends

    def refine(self, st, term, val):
        """record that `term` has value / variant `val`"""
        st.ref[term] = ("is", val)
        if term.k == "op" and term.a[0] == "BitAnd" and val is True:
            for x in term.a[1:]:
                self.refine_bool(st, x, True)
        elif term.k == "op" and term.a[0] == "BitOr" and val is False:
            for x in term.a[1:]:
                self.refine_bool(st, x, False)
        elif term.k == "op" and term.a[0] == "Eq" and val is True:
            a, c = term.a[1], term.a[2]
            if c.k == "c" and a.k not in ("c", "discr"):
                st.ref[a] = ("is", c.a[0])

    def refine_bool(self, st, x, val):
        while x.k == "op" and x.a[0] == "Not":
            x = x.a[1]
            val = not val
        if x.k != "c":
            self.refine(st, x, val)

    def switch(self, st, fid, t):
        d = self.operand(st, fid, t["d"])
        neg = False
        tb = t["ty"] == "bool"
        while tb and d.k == "op" and d.a[0] == "Not":
            d = d.a[1]
            neg = not neg
        targets = t["v"]
        if d.k == "c":
            val = d.a[0]
            if tb and neg:
                val = not val
            iv = int(val) if not isinstance(val, str) else None
            for v, bb in targets:
                if v == iv:
                    st.bb = bb
                    self.push(st)
                    return
            st.bb = t["else"]
            self.push(st)
            return
        if d.k == "discr":
            inner, adtp = d.a
            adt = self.f.adt(adtp)
            if is_enum_agg(inner) and adt is not None:
                dv = adt.by_name.get(inner.a[1])
                for v, bb in targets:
                    if v == dv:
                        st.bb = bb
                        self.push(st)
                        return
                st.bb = t["else"]
                self.push(st)
                return
            names = dict(adt.by_discr) if adt is not None else {}
            known = st.ref.get(inner)
            listed = [v for v, _ in targets]
            for v, bb in targets:
                nm = names.get(v, str(v))
                if known is not None:
                    if known[0] == "is" and known[1] != nm:
                        continue
                    if known[0] == "not" and nm in known[1]:
                        continue
                s2 = st.copy()
                s2.ref[inner] = ("is", nm)
                s2.bb = bb
                self.branch_event(s2, inner, nm, t)
                self.push(s2)
            rest = [n for v, n in names.items() if v not in listed]
            if known is not None:
                if known[0] == "is":
                    rest = [n for n in rest if n == known[1]]
                else:
                    rest = [n for n in rest if n not in known[1]]
            if not names or rest:
                s2 = st.copy()
                if len(rest) == 1:
                    s2.ref[inner] = ("is", rest[0])
                    s2.bb = t["else"]
                    self.branch_event(s2, inner, rest[0], t)
                elif rest:
                    s2.ref[inner] = ("not", frozenset(n for n in names.values() if n not in rest))
                    s2.bb = t["else"]
                    self.branch_event(s2, inner, ("not",) + tuple(sorted(n for n in names.values() if n not in rest)), t)
                else:
                    s2.bb = t["else"]
                self.push(s2)
            return
        if tb and d.k == "op" and d.a[0] == "Eq" and d.a[1].k == "discr" and d.a[2].k == "c":
            inner, adtp = d.a[1].a
            adt = self.f.adt(adtp)
            nm = adt.by_discr.get(d.a[2].a[0]) if adt is not None else None
            if nm is not None:
                known = st.ref.get(inner)
                if is_enum_agg(inner):
                    known = ("is", inner.a[1])
                others = [x for x in adt.by_name if x != nm]
                for val in (True, False):
                    if known is not None:
                        if known[0] == "is" and (known[1] == nm) != val:
                            continue
                        if known[0] == "not" and val and nm in known[1]:
                            continue
                    swv = 1 if (val != neg) else 0
                    bb = t["else"]
                    for v, x in targets:
                        if v == swv:
                            bb = x
                    s2 = st.copy()
                    s2.bb = bb
                    if val:
                        res = nm
                        s2.ref[inner] = ("is", nm)
                    elif len(others) == 1:
                        res = others[0]
                        s2.ref[inner] = ("is", res)
                    else:
                        res = ("not", nm)
                        if known is None or known[0] == "not":
                            s2.ref[inner] = ("not", frozenset([nm]) | (known[1] if known else frozenset()))
                    self.branch_event(s2, inner, res, t)
                    self.push(s2)
                return
        if tb:
            known = st.ref.get(d)
            for val in (True, False):
                if known is not None and known[0] == "is" and known[1] != val:
                    continue
                swv = 1 if (val != neg) else 0
                bb = t["else"]
                for v, x in targets:
                    if v == swv:
                        bb = x
                s2 = st.copy()
                self.refine(s2, d, val)
                s2.bb = bb
                self.branch_event(s2, d, val, t)
                self.push(s2)
            return
        known = st.ref.get(d)
        for v, bb in targets:
            if known is not None:
                if known[0] == "is" and known[1] != v:
                    continue
                if known[0] == "not" and v in known[1]:
                    continue
            s2 = st.copy()
            s2.ref[d] = ("is", v)
            s2.bb = bb
            self.branch_event(s2, d, v, t)
            self.push(s2)
        if known is None or known[0] == "not" or known[1] not in [v for v, _ in targets]:
            s2 = st.copy()
            if known is None or known[0] == "not":
                s2.ref[d] = ("not", frozenset(v for v, _ in targets) | (known[1] if known else frozenset()))
            s2.bb = t["else"]
            self.branch_event(s2, d, ("not",) + tuple(v for v, _ in targets), t)
            self.push(s2)

    def branch_event(self, st, term, val, t):
        if self.trace:
            self.note(st, "%s branch %s = %s" % (t.get("sp", ""), show(term), val))
        self.rule.branch(self, st, term, val)

    # ------------------------------------------------------------------- calls
    def do_return(self, st, b, fid):
        v = self.getroot(st, ("L", fid, 0))
        fr = st.stack[-1]
        if len(st.stack) == 1:
            self.rule.ret(self, st, self.term(st, v, 8))
            return
        self.rule.leave(self, st, fr[6], b, v)
        st.stack = st.stack[:-1]
        parent = st.stack[-1]
        pfid = parent[1]
        wrap = fr[5]
        if wrap == "Ready":
            v = agg("std::task::Poll", "Ready", [("0", v)])
        elif wrap == "Err":
            v = agg("std::result::Result", "Err", [("0", v)])
        elif wrap == "maybe":
            st.bb = fr[2]
            st.term = True
            for k in [k for k in st.mem if k[0] == "L" and k[1] == fid]:
                if not self.root_referenced(st, k):
                    del st.mem[k]
            self.push(st)
            return
        if fr[2] < 0:
            return
        root, path = self.loc(st, pfid, self.f.body(parent[0]).blocks[fr[4]]["t"]["d"])
        self.write(st, root, path, v, b.span)
        st.bb = fr[2]
        st.term = False
        self.push(st)

    def root_referenced(self, st, root):
        return any(root in refs(v) for v in st.mem.values())

    def inline(self, st, body, args, ret_bb, dest, wrap, short, tag="", maybe=False, cal=None):
        fr = st.stack[-1]
        fid = self.fid(fr[1], body.id, st.bb, tag)
        self.enter_generic(st, fid, body, cal, args)
        st.stack = st.stack + ((body.id, fid, ret_bb, maybe, st.bb, wrap, short),)
        for k in [k for k in st.mem if k[0] == "L" and k[1] == fid]:
            del st.mem[k]
        for i, v in enumerate(args):
            st.mem[("L", fid, i + 1)] = v
        st.bb = 0
        st.term = False
        self.push(st)

    def finish(self, st, fid, t, val, span):
        if t["to"] < 0:
            return
        if val is BOTTOM:
            return
        root, path = self.loc(st, fid, t["d"])
        self.write(st, root, path, val, span)
        st.bb = t["to"]
        self.push(st)

    def call(self, st, b, fid, t):
        fo = t["f"]
        argv = [self.operand(st, fid, a) for a in t["a"]]
        if fo["k"] == "fn":
            cal = self.callee(fo["f"])
        else:
            fv = self.operand(st, fid, fo)
            fv = self.deref(st, fv)
            if fv.k == "fn" and fv.a[0] in self._fns:
                cal = self.callee(self._fns[fv.a[0]])
            else:
                cal = None
        span = t["sp"]
        self.dispatch(st, b, fid, t, cal, argv, span)

    def arg_types(self, b, t):
        out = []
        for o in t["a"]:
            if o["k"] in ("cp", "mv"):
                p = o["p"]
                out.append(b.locals[p[0]][0] if not p[1] else "")
            else:
                out.append(o.get("ty", ""))
        return out

    def dispatch(self, st, b, fid, t, cal, argv, span, tys=None):
        c = Call()
        c.callee = cal
        c.args = argv
        c.site = (fid, st.bb)
        c.span = span
        c.fid = fid
        c.body = b
        c.types = tys if tys is not None else self.arg_types(b, t)
        c.terms = tuple(clip(self.term(st, v)) for v in argv)
        self.sites.add((b.id, st.bb))
        if self.trace and cal is not None:
            self.note(st, "%s call %s" % (span, cal.short))
        dec = self.rule.classify(self, st, c) if cal is not None else "opaque"
        if isinstance(dec, tuple) and dec[0] == "value":
            self.finish(st, fid, t, dec[1], span)
            return
        if dec == "stop":
            # what comes after this call is of no interest to the rule
            c.res = UNIT
            self.rule.event(self, st, c)
            return
        if cal is None:
            self.opaque(st, b, fid, t, c, "fnptr")
            return
        name, trait = cal.name, cal.trait.rsplit("::", 1)[-1]
        if trait == "PartialOrd" and any(a.startswith("log::Level") for a in cal.args):
            # the level test of the log macros: what is logged has no effect, except on a rule that looks into it
            self.finish(st, fid, t, mk("pure", "log::enabled", ()) if self.rule.logs(b) else FALSE, span)
            return
        if dec != "opaque":
            # ---- built-in models ------------------------------------------
            if cal.ctor:
                adt, var = cal.ctor
                a = self.f.adt(adt)
                en = a is None or a.is_enum
                self.finish(st, fid, t, agg(adt, var if en else "", [(str(i), x) for i, x in enumerate(argv)]), span)
                return
            if trait == "Future" and name == "poll":
                self.poll(st, b, fid, t, c)
                return
            if trait in ("FnOnce", "FnMut", "Fn") and name in ("call_once", "call_mut", "call"):
                if self.call_closure(st, b, fid, t, c):
                    return
            if trait == "PartialEq" and name in ("eq", "ne") and len(argv) == 2 and cal.local and self.f.body(cal.rid).derived:
                v = self.same_variant(st, argv)
                if v is not None:
                    self.finish(st, fid, t, v if name == "eq" else mknot(v), span)
                    return
            if trait == "FromResidual" and name == "from_residual":
                self.from_residual(st, b, fid, t, c)
                return
            if cal.short == "Into::into" and cal.from_tys or cal.short == "From::from" and not cal.local and self.tysub:
                conv = self.conversion(st, cal)
                if conv and conv[0] == conv[1]:
                    self.finish(st, fid, t, argv[0], span)
                    return
                if conv and conv[2] in self.f.raw and not self.in_stack(st, conv[2]):
                    self.inline(st, self.f.body(conv[2]), argv, t["to"], t["d"], None, "From::from")
                    return
            if cal.short == "From::from" and len(cal.args) == 2 and cal.args[0] == cal.args[1]:
                self.finish(st, fid, t, argv[0], span)
                return
            if cal.short in ("Into::into", "From::from") and argv and same_text(cal):
                self.finish(st, fid, t, self.transparent(st, argv[0], "to_vec"), span)
                return
            if trait in ("Index", "IndexMut") and argv and cal.args and cal.args[-1] == "std::ops::RangeFull" and not cal.local:
                self.finish(st, fid, t, self.transparent(st, argv[0], "deref" if name == "index" else "as_mut_slice"), span)
                return
            if not (cal.local and self.f.body(cal.rid).derived is False) and self.is_transparent(cal, trait, name):
                self.finish(st, fid, t, self.transparent(st, argv[0] if argv else UNIT, name), span)
                return
            if cal.short == "Default::default":
                d = self.default_of(st, cal)
                if d is not None:
                    self.finish(st, fid, t, d, span)
                    return
            if cal.path in ("std::mem::replace", "std::mem::take", "std::mem::swap"):
                if self.mem_op(st, b, fid, t, c):
                    return
            if cal.path == "std::mem::drop":
                c.res = UNIT
                self.rule.event(self, st, c)
                self.finish(st, fid, t, UNIT, span)
                return
            # ---- inlining ----------------------------------------------------
            if cal.local:
                body = self.f.body(cal.rid)
                if body is not None and not self.in_stack(st, body.id) and len(st.stack) < self.rule.max_inline \
                        and not (body.derived and name in ("fmt", "eq", "ne", "hash", "serialize", "deserialize", "partial_cmp", "cmp")):
                    if dec == "inline" or self.rule_inline(st, c, body):
                        self.ncalls.add(cal.rid)
                        self.rule.enter(self, st, c)
                        self.inline(st, body, argv, t["to"], t["d"], None, cal.short, cal=cal)
                        return
            elif cal.ext:
                body = self.f.body(cal.rid)
                if body is not None and not self.in_stack(st, body.id):
                    self.inline(st, body, argv, t["to"], t["d"], None, cal.short)
                    return
        self.opaque(st, b, fid, t, c, cal.short)

    def default_of(self, st, cal):
        ty = cal.args[0] if cal.args else ""
        if re.match(r"^[A-Z]\w?(/#\d+)?$", ty) and len(st.stack) > 1:
            # a generic parameter: what the caller of this function chose
            caller = self.f.body(st.stack[-2][0])
            t = caller.blocks[st.stack[-1][4]]["t"] if caller is not None else {}
            fo = t.get("f", {})
            args = fo["f"].get("args", []) if fo.get("k") == "fn" else []
            ty = args[0] if len(args) == 1 else ""
        if ty == "bool":
            return FALSE
        if ty in ("usize", "u64", "u32", "u16", "u8", "isize", "i64", "i32", "i16", "i8"):
            return C(0)
        if ty.startswith("std::option::Option<"):
            return agg("std::option::Option", "None", ())
        return None

    # ---- what is worth inlining ------------------------------------------
    def rule_inline(self, st, c, body):
        return self.worth(body)

    def worth(self, body):
        if self.rule.relevant is None:
            return True
        if self.rule.relevant_body(body) or body.id in self.relset():
            return True
        return body.is_async or self.simple(body, 9)

    def relset(self):
        if self._relset is None:
            rule = self.rule
            uses = {}
            rel = set()
            for b in self.f.local_bodies(derived=True):
                u = set()
                hit = rule.relevant_body(b)
                for cj in calls_of(b):
                    c = self.callee(cj)
                    if not hit and not c.ctor and rule.relevant(c):
                        hit = True
                    if c.local:
                        u.add(c.rid)
                    if c.from_id and c.from_id in self.f.raw:
                        u.add(c.from_id)
                for cid in closures_of(b):
                    u.add(cid)
                if hit:
                    rel.add(b.id)
                uses[b.id] = u
            changed = True
            while changed:
                changed = False
                for i, u in uses.items():
                    if i not in rel and not rel.isdisjoint(u):
                        rel.add(i)
                        changed = True
            self._relset = rel
        return self._relset

    def simple(self, body, d):
        key = (body.id, d)
        r = self._simple.get(key)
        if r is None:
            self._simple[key] = False
            r = self._simple0(body, d)
            self._simple[key] = r
        return r

    def _simple0(self, body, d):
        if d == 0:
            return False
        if body.derived and body.name in ("fmt", "serialize", "deserialize", "json_schema"):
            return False
        if len(body.blocks) > 60:
            return False
        # loops other than those of await
        color = {}

        def succ(i):
            t = body.blocks[i]["t"]
            if t["t"] == "yield":
                return []
            return body.succ(i)

        stack = [(0, iter(succ(0)))]
        color[0] = 1
        while stack:
            i, it = stack[-1]
            for j in it:
                cj = color.get(j)
                if cj == 1:
                    return False
                if cj is None:
                    color[j] = 1
                    stack.append((j, iter(succ(j))))
                    break
            else:
                color[i] = 2
                stack.pop()
        n = 0
        for cj in calls_of(body):
            c = self.callee(cj)
            if c.local:
                n += 1
                cb = self.f.body(c.rid)
                if cb is not None and not self.simple(cb, d - 1):
                    return False
        for cid in closures_of(body):
            cb = self.f.body(cid)
            if cb is not None and not self.simple(cb, d - 1):
                return False
        return n <= 8

    def in_stack(self, st, bid):
        return any(f[0] == bid for f in st.stack)

    def is_transparent(self, cal, trait, name):
        if trait and (trait, name) in TRANSPARENT:
            return True
        if cal.short in TRANSPARENT_SHORT:
            return True
        if cal.short in ("Option::cloned", "Option::copied", "Option::as_ref", "Option::as_mut") and not cal.ext:
            return True
        return False

    def transparent(self, st, v, name):
        if name in ("deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "as_mut_slice"):
            if v.k == "ref":
                w = self.read(st, v.a[0], v.a[1])
                if w.k == "ref" or w.k not in ("agg", "c", "upd", "mut", "top"):
                    return w
                return v
            return v
        if name in ("clone", "to_owned", "to_vec", "to_path_buf", "to_string"):
            return self.deref(st, v)
        return v

    def same_variant(self, st, argv):
        """comparing with an alternative that has no fields is a test for that alternative"""
        a, c = [self.deref(st, self.deref(st, x)) for x in argv]
        if not (is_enum_agg(c) and not c.a[2]):
            a, c = c, a
        adt = self.f.adt(c.a[0]) if is_enum_agg(c) and not c.a[2] else None
        if adt is None or c.a[1] not in adt.by_name:
            return None
        if is_enum_agg(a):
            return TRUE if a.a[1] == c.a[1] else FALSE
        return mk("op", "Eq", mk("discr", a, adt.path), C(adt.by_name[c.a[1]]))

    def from_residual(self, st, b, fid, t, c):
        v = c.args[0]
        cal = c.callee
        if cal.from_tys is None:
            if cal.args and cal.args[0].startswith("std::option::Option"):
                self.finish(st, fid, t, agg("std::option::Option", "None", ()), c.span)
            else:
                self.finish(st, fid, t, mk("call", "from_residual", c.site, c.terms), c.span)
            return
        e = proj(proj(self.deref(st, v), "@Err"), ".0")
        if e is BOTTOM:
            return
        src, dst, conv = self.conversion(st, cal)
        if src == dst:
            self.finish(st, fid, t, agg("std::result::Result", "Err", [("0", e)]), c.span)
            return
        if conv in self.f.raw and not self.in_stack(st, conv):
            self.inline(st, self.f.body(conv), [e], t["to"], t["d"], "Err", "From::from")
            return
        self.finish(st, fid, t, agg("std::result::Result", "Err", [("0", mk("pure", "From::from", (clip(self.term(st, e)),)))]), c.span)

    def poll(self, st, b, fid, t, c):
        v = c.args[0]
        w = v
        for _ in range(6):
            if w.k == "ref":
                w = self.read(st, w.a[0], w.a[1])
            else:
                break
        if w.k == "agg" and w.a[0] == "coroutine":
            body = self.f.body(w.a[1])
            if body is not None and not self.in_stack(st, body.id) and len(st.stack) < self.rule.max_inline \
                    and self.worth(body):
                self.inline(st, body, [w, mk("top", "cx")], t["to"], t["d"], "Ready", body.path.rsplit("::", 1)[-1])
                return
            res = mk("call", "await:" + (strip_generics(body.path) if body is not None else w.a[1]), c.site,
                     tuple(clip(self.term(st, x)) for _, x in w.a[2]))
        else:
            res = w
        self.rule.awaited(self, st, res, c.span)
        self.finish(st, fid, t, agg("std::task::Poll", "Ready", [("0", res)]), c.span)

    def call_closure(self, st, b, fid, t, c):
        fv = c.args[0]
        w = fv
        for _ in range(6):
            if w.k == "ref":
                w = self.read(st, w.a[0], w.a[1])
            else:
                break
        tup = self.deref(st, c.args[1])
        if w.k == "fn" and w.a[0] in self._fns:
            cal = self.callee(self._fns[w.a[0]])
            if tup.k != "agg":
                return False
            argv = [x for _, x in tup.a[2]]
            self.dispatch(st, b, fid, t, cal, argv, c.span, tys=["" for _ in argv])
            return True
        if w.k == "agg" and w.a[0] == "closure":
            body = self.f.body(w.a[1])
            if body is None or self.in_stack(st, body.id) or len(st.stack) >= self.rule.max_inline:
                return False
            if tup.k == "agg":
                argv = [x for _, x in tup.a[2]]
            else:
                argv = [proj(tup, ".%d" % i) for i in range(body.argc - 1)]
            self.inline(st, body, [fv if fv.k == "ref" else w] + argv, t["to"], t["d"], None, "closure")
            return True
        return False

    def mem_op(self, st, b, fid, t, c):
        n = c.callee.name
        if c.args[0].k == "ref":
            root, path = c.args[0].a
        elif c.args[0].k not in ("agg", "c", "top"):
            root, path = ("D", c.args[0]), ()
        else:
            return False
        old = self.read(st, root, path)
        if n == "replace":
            self.write(st, root, path, c.args[1], c.span)
            self.finish(st, fid, t, old, c.span)
            return True
        if n == "take":
            self.write(st, root, path, mk("pure", "Default::default", ()), c.span)
            self.finish(st, fid, t, old, c.span)
            return True
        if n == "swap":
            if c.args[1].k == "ref":
                r2, p2 = c.args[1].a
            elif c.args[1].k not in ("agg", "c", "top"):
                r2, p2 = ("D", c.args[1]), ()
            else:
                return False
            o2 = self.read(st, r2, p2)
            self.write(st, root, path, o2, c.span)
            self.write(st, r2, p2, old, c.span)
            self.finish(st, fid, t, UNIT, c.span)
            return True
        return False

    def closures_in(self, st, v, d=5):
        """closure / coroutine values reachable from an argument"""
        out = []
        if v.k == "ref":
            if d:
                out += self.closures_in(st, self.read(st, v.a[0], v.a[1]), d - 1)
        elif v.k == "agg":
            if v.a[0] in ("closure", "coroutine"):
                out.append(v)
            elif d:
                for _, x in v.a[2]:
                    out += self.closures_in(st, x, d - 1)
        elif v.k in ("call", "pure", "mut") and d and v.a[0].rsplit("::", 1)[-1] not in ("spawn", "spawn_local", "spawn_blocking"):
            for x in kids(v):
                out += self.closures_in(st, x, d - 1)
        return out

    def age(self, st, val):
        """what is kept of an earlier result is not this result"""
        for k, x in list(st.mem.items()):
            if any(y is val for y in subterms(x)):
                st.mem[k] = subst(x, lambda y: y if y.k == "old" else mk("old", val) if y is val else None)

    def opaque(self, st, b, fid, t, c, short):
        cal = c.callee
        # closures and futures handed to code we do not see: may run any number of times
        if cal is None or (cal.name not in ("into_future", "new_unchecked") and self.rule.runs_closures(cal)):
            n = 0
            for a in c.args:
                for cv in self.closures_in(st, a):
                    n += 1
                    body = self.f.body(cv.a[1])
                    if body is None or self.in_stack(st, body.id) or len(st.stack) >= self.rule.max_inline:
                        continue
                    if not self.rule.relevant_closure(self, body.id):
                        continue
                    s2 = st.copy()
                    args = [cv]
                    for i in range(body.argc - 1):
                        args.append(mk("cbarg", short, i, tuple(x for x in c.terms if x is not self.term(st, cv))[:2]))
                    self.inline(s2, body, args, s2.bb, t["d"], "maybe", "closure", tag="m%d" % n, maybe=True)
        # the result term
        if cal is not None and (cal.name in PURE_NAMES):
            val = mk("pure", short, c.terms)
        else:
            val = mk("call", short, c.site, c.terms)
            # a fresh result: facts about an earlier result of the same call are gone
            for k in [k for k in st.ref if val in atoms(k)]:
                del st.ref[k]
            for k in [k for k in st.mem if k[0] == "D" and val in atoms(k[1])]:
                del st.mem[k]
            if self.rule.ages is not None and cal is not None and self.rule.ages(cal):
                self.age(st, val)
        c.res = val
        ov = self.rule.event(self, st, c)
        if isinstance(ov, V):
            val = ov
        # havoc what was passed by mutable reference
        if cal is None or cal.name not in STABLE_MUT or cal.name in self.rule.views:
            for i, (a, ty) in enumerate(zip(c.args, c.types)):
                if not ty.startswith("&mut") and not ty.startswith("std::pin::Pin<&mut"):
                    continue
                if a.k == "ref":
                    root, path = a.a
                elif a.k in ("agg", "c", "top"):
                    continue
                else:
                    root, path = ("D", a), ()
                old = self.read(st, root, path)
                base = old
                tag = "%s@%s" % (short, c.span)
                m = 0
                while base.k == "mut" and m < 30:
                    if base.a[1] == tag:
                        break
                    m += 1
                    base = base.a[3][base.a[2]] if len(base.a[3]) > base.a[2] else mk("top", "x")
                if base.k == "mut" and base.a[1] == tag:
                    old2 = base.a[3][base.a[2]] if len(base.a[3]) > base.a[2] else mk("top", "x")
                else:
                    old2 = old
                terms = list(c.terms)
                terms[i] = clip(self.term(st, old2))
                nv = mk("mut", short, tag, i, tuple(terms))
                if nv.depth > MAXDEPTH:
                    nv = mk("mut", short, tag, i, ())
                for k in [k for k in st.ref if nv in atoms(k)]:
                    del st.ref[k]
                self.write(st, root, path, nv, c.span)
        self.finish(st, fid, t, val, c.span)
