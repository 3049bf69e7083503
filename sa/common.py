"""What the rules share: the context of one check, and helpers over terms."""
import re
import traceback

from absint import (Budget, Engine, Rule, V, agg, atoms, calls_of, closures_of, contains, kids, mk, mut_base, mut_elems, rebuild, show, subst, subterms)
from facts import path_match, strip_generics


class Ctx:
    def __init__(self, pid, facts, config):
        self.pid = pid
        self.f = facts
        self.config = config
        self.violations = []
        self.obligations = []
        self.rules = []
        self.assumptions = []
        self.explanation = ""
        self.bodies = set()
        self.sites = set()
        self.states = 0
        self.entries = []
        self.counts = {}
        self.inconclusive = []

    def violation(self, key, msg, span="", trail=()):
        self.violations.append({"key": key, "msg": msg, "span": span, "trail": list(trail)})

    def oblige(self, what, ok, key=None, msg=None, span="", trail=()):
        self.obligations.append({"what": what, "ok": bool(ok), "at": span})
        if not ok:
            self.violation(key or what, msg or what, span, trail)
        return ok

    def count(self, name, n, floor):
        """an instance count that must not silently fall to nothing"""
        self.counts[name] = n
        if n < floor and not self.inconclusive:
            self.violation("count:" + name, "only %d instances of '%s' found, %d expected at least" % (n, name, floor))

    def anchor(self, bodies, what):
        if not bodies:
            # it may only have been renamed
            self.inconclusive.append("cannot find %s, which the property is about" % what)
        return bodies

    def run(self, rule, body, args=None, what=None):
        eng = Engine(self.f, rule, body, args)
        name = what or strip_generics(body.path)
        met = {}

        def oblige(what, ok, key, msg, st, span=""):
            k = (what, key, span)
            met[k] = met.get(k, True) and bool(ok)
            if not ok:
                eng.report(key, msg, st, span)
            return ok
        eng.oblige = oblige
        orig = getattr(rule, "_on_event", None), getattr(rule, "_on_ret", None)

        def judged(f, label):
            # what a rule looks at on each path is an obligation, met unless it is reported there
            def g(eng, st, hist, x):
                before = len(eng.violations)
                out = f(eng, st, hist, x)
                k = label(x)
                met[k] = met.get(k, True) and len(eng.violations) == before
                return out
            return g
        if orig[0] is not None and isinstance(rule, Trace):
            rule._on_event = judged(orig[0], lambda ev: ("every path to %s satisfies the rules" % (ev.short or ev.kind), None, ev.span))
        if orig[1] is not None and isinstance(rule, Trace):
            rule._on_ret = judged(orig[1], lambda v: ("every way out satisfies the rules", None, name))
        try:
            eng.run()
        except Budget as e:
            self.inconclusive.append("%s: %s" % (name, e))
        except RecursionError as e:
            self.inconclusive.append("%s: %s" % (name, e))
        except Exception:
            self.inconclusive.append("%s: internal error: %s" % (name, traceback.format_exc()[-1500:]))
        finally:
            if isinstance(rule, Trace):
                rule._on_event, rule._on_ret = orig
        for (w, k, span), ok in met.items():
            self.obligations.append({"what": w, "ok": ok, "at": span or name})
        self.states += eng.nstates
        self.bodies |= eng.bodies_seen
        self.sites |= eng.sites
        self.entries.append(name)
        seen = set()
        for key, msg, span, trail in eng.violations:
            if key in seen:
                continue
            seen.add(key)
            self.violation(key, msg, span, trail)
        return eng


# ---------------------------------------------------------------- body helpers
def parent_fn(f, b):
    """the function item a closure / coroutine body belongs to"""
    while b is not None and b.kind != "fn":
        b = f.body(b.parent)
    return b


def ret_is_number(b):
    """does the function only compute a number?"""
    t = b.locals[0][0]
    t = re.sub(r"std::result::Result<(\w+), .*>$", r"\1", t)
    return t in ("usize", "u64", "u32", "u16", "u8", "i64", "i32")


def owner_path(f, b):
    p = parent_fn(f, b)
    return strip_generics((p or b).path)


def reach(f, roots, virtual=True):
    """bodies reachable from the roots: calls, closures, async bodies, trait impls of virtual calls"""
    todo = list(roots)
    seen = set(todo)
    impls = {}
    for b in f.local_bodies(derived=True):
        if b.trait and b.kind == "fn":
            impls.setdefault((strip_generics(b.trait), b.name), []).append(b.id)
    while todo:
        i = todo.pop()
        b = f.body(i)
        if b is None:
            continue
        nxt = list(closures_of(b))
        for cj in calls_of(b):
            r = cj.get("r", cj["id"])
            if r in f.raw:
                nxt.append(r)
            if cj.get("from_id") and cj["from_id"] in f.raw:
                nxt.append(cj["from_id"])
            if virtual and cj.get("trait") and r not in f.raw and not cj["trait"].startswith(("std::", "serde", "alloc::")):
                nxt += impls.get((strip_generics(cj["trait"]), cj["name"]), [])
        for n in nxt:
            if n not in seen:
                seen.add(n)
                todo.append(n)
    return seen


def callers(f):
    """callee id -> functions that call it (tests left out)"""
    if getattr(f, "_callers", None) is None:
        f._callers = {}
        for b in f.local_bodies(derived=True):
            p = parent_fn(f, b) or b
            if "::tests::" in p.path:
                continue
            for cj in calls_of(b):
                for i in {cj.get("r", cj["id"]), cj["id"]}:
                    f._callers.setdefault(i, set()).add(p.id)
    return f._callers


def entry_of_file(f, b):
    """can the function be called from outside its file?"""
    return b.pub or any(f.body(i) is not None and f.body(i).file() != b.file() for i in callers(f).get(b.id, ()))


def self_ty_short(c):
    return c.self_adt.rsplit("::", 1)[-1]


# ---------------------------------------------------------------- term helpers
def strip(v):
    """peel conversions that keep the value: unwraps of Ok/Some/Ready projections are kept"""
    return v


def fields_of(v):
    """the projection path of a term down to its root: (root, [steps])"""
    steps = []
    while v.k == "proj":
        steps.append(v.a[1])
        v = v.a[0]
    steps.reverse()
    return v, steps


def dot_fields(steps):
    return [s[1:] for s in steps if s[0] == "."]


def calls_in(v, pred):
    return [x for x in subterms(v) if x.k in ("call", "pure") and pred(x)]


def has_call(v, *shorts):
    return contains(v, lambda x: x.k in ("call", "pure") and x.a[0] in shorts)


def derives(v, src):
    return contains(v, lambda x: x is src)


def same_value(v, x, st=None, through=None):
    """v is x, or x taken apart and put together again"""
    if through is not None:
        v = through(v)
    if v is x:
        return True
    if v.k != "agg" or not v.a[2] and not v.a[1]:
        return False
    base = mk("proj", x, "@" + v.a[1]) if v.a[1] else x
    if v.a[1] and not v.a[2]:
        return st is not None and st.ref.get(x) == ("is", v.a[1])
    return all(same_value(y, mk("proj", base, "." + f), st, through) for f, y in v.a[2])


# ---------------------------------------------------------------- path traces
from collections import namedtuple

Ev = namedtuple("Ev", "kind short name trait path self_adt terms res span types")
# kind: call | br | aw | wr | drop
#   br: terms=(term,), res=value     aw: terms=(term,)
#   wr: short=root repr, terms=(value,), path=path steps


class Trace(Rule):
    """records, along every path, the calls / branches / writes a property is
    about; `on_event(eng, st, hist, ev)` sees each with what came before it, and
    `on_ret(eng, st, hist, val)` sees every way out"""
    max_hist = 40
    trim = None     # may shorten the history after each event
    alias = None    # may give the result of a call a short name of its own
    stop = None     # calls after which a path is not followed any further
    spy = None      # sees every call that is not followed, without recording it

    def __init__(self, want=None, on_event=None, on_ret=None, opaque=None, relevant=None, wantbranch=None, writes=None,
                 value=None, max_states=None, pure_events=False, on_panic=None):
        self._want = want or (lambda c: True)
        self._on_event = on_event
        self._on_ret = on_ret
        self._opaque = opaque
        self._wantbranch = wantbranch
        self._writes = writes
        self._value = value
        self._on_panic = on_panic
        if relevant is not None:
            self.relevant = relevant
        if max_states:
            self.max_states = max_states
        self.nret = 0
        self.nev = 0

    def classify(self, eng, st, call):
        if self._value is not None:
            v = self._value(eng, st, call)
            if v is not None:
                return ("value", v)
        if self.stop is not None and self.stop(call.callee):
            return "stop"
        if self._opaque is not None and self._opaque(call.callee):
            return "opaque"
        return None

    def add(self, eng, st, ev):
        hist = st.auto
        if self._on_event is not None:
            self._on_event(eng, st, hist, ev)
        h = []
        for e in hist:
            if e.kind == ev.kind:
                if ev.kind == "call" and e.res is ev.res and e.terms == ev.terms and e.short == ev.short:
                    continue
                if ev.kind in ("br", "aw") and e.terms[0] is ev.terms[0]:
                    continue
                if e == ev:
                    continue
            if ev.kind == "call" and e.kind in ("br", "aw") and isinstance(ev.res, V) and ev.res.k == "call" \
                    and ev.res in atoms(e.terms[0]):
                continue
            h.append(e)
        h.append(ev)
        if self.trim is not None:
            h = self.trim(h)
        st.auto = tuple(h[-self.max_hist:]) if self.max_hist else ()

    def event(self, eng, st, call):
        c = call.callee
        if self.spy is not None:
            self.spy(eng, st, call)
        ov = None
        eng.dropped = {}    # what was known of an earlier result of the same call
        if self.alias is not None and c is not None:
            ov = self.alias(eng, st, call)
            if ov is not None:
                # a fresh result under a short name
                eng.dropped = {}
                for k in [k for k in st.ref if ov in atoms(k)]:
                    eng.dropped[k] = st.ref.pop(k)
                if self.ages is not None and self.ages(c):
                    eng.age(st, ov)
                call.res = ov
        if c is None or not self._want(c):
            return ov
        self.nev += 1
        self.add(eng, st, Ev("call", c.short, c.name, c.trait, c.path, c.self_adt, call.terms, call.res, call.span,
                             tuple(call.types)))
        return ov

    def branch(self, eng, st, term, val):
        ok = False
        if self._wantbranch is not None:
            ok = self._wantbranch(term)
        else:
            at = atoms(term)
            for e in st.auto:
                if e.kind == "call" and isinstance(e.res, V):
                    if e.res in at or (e.res.k != "call" and contains(term, lambda x: x is e.res)):
                        ok = True
                        break
        if ok:
            self.add(eng, st, Ev("br", "", "", "", "", "", (term,), val, "", ()))

    def awaited(self, eng, st, term, span):
        for e in st.auto:
            if e.kind == "call" and isinstance(e.res, V) and contains(term, lambda x: x is e.res):
                self.add(eng, st, Ev("aw", "", "", "", "", "", (term,), None, span, ()))
                return

    def wrote(self, eng, st, root, path, val, span):
        if self._writes is not None and self._writes(root, path, val):
            self.add(eng, st, Ev("wr", root[1] if root[0] == "D" else root, "", "", path, "", (eng.term(st, val),), None, span, ()))

    def ret(self, eng, st, val):
        self.nret += 1
        if self._on_ret is not None:
            self._on_ret(eng, st, st.auto, val)

    def panic(self, eng, st, what, ops, span):
        if self._on_panic is not None:
            self._on_panic(eng, st, what, ops, span)

    def auto_values(self, auto):
        return ()

    def runs_closures(self, callee):
        # spawned tasks are analysed as tasks of their own
        return callee.name not in ("spawn", "spawn_local", "spawn_blocking")


def branch_of(hist, pred):
    """value of the last recorded branch whose term satisfies pred"""
    out = None
    for e in hist:
        if e.kind == "br" and pred(e.terms[0]):
            out = e.res
    return out


def calls(hist, *shorts):
    return [e for e in hist if e.kind == "call" and (e.short in shorts or e.name in shorts)]


def variant_known(eng, st, term):
    r = st.ref.get(term)
    return r[1] if r is not None and r[0] == "is" else None


def is_variant(v, *names):
    return v.k == "agg" and v.a[1] in names


def field(v, name):
    """the field of an aggregate (or a projection)"""
    from absint import proj
    return proj(v, "." + name)


def param(name):
    return mk("param", name)


def path_of(v):
    """('param'/'call'.. root, dotted field path) of a projection chain"""
    root, steps = fields_of(v)
    return root, ".".join(s.lstrip(".@") for s in steps)


LOSSY = {"index", "get", "take", "skip", "truncate", "split_at", "first", "last", "filter", "step_by", "drain", "resize",
         "split_off", "split_to", "chunks", "windows", "split_first", "split_last", "take_while", "skip_while", "nth",
         "retain", "filter_map", "dedup", "pop", "remove", "rev", "zip", "map_while", "get_unchecked", "hash", "len",
         "swap_remove", "min", "max", "sort", "sort_unstable", "reverse", "clear", "fill", "copy_within", "rotate_left",
         "to_string", "from_utf8_lossy", "to_string_lossy", "trim", "trim_end", "trim_start", "to_lowercase",
         "to_uppercase", "splitn", "rsplit", "split", "replace", "parent", "file_name", "chunks_exact", "peekable"}


def whole(v, src, deny=LOSSY):
    """does the term carry the source term unabridged (no lossy step between)?"""
    todo = [v]
    seen = set()
    while todo:
        x = todo.pop()
        if x is src:
            return True
        if x in seen:
            continue
        seen.add(x)
        if x.k in ("call", "pure", "mut"):
            nm = x.a[0].rsplit("::", 1)[-1]
            if nm in deny:
                # a lossy step keeps only what it was not given as its subject
                continue
        if x.k == "proj":
            s = x.a[1]
            if s.startswith("#") or s == "[]":
                continue
            # a projection of the source is only a part of it
            if s.startswith("."):
                inner = x.a[0]
                if inner is src or (inner.k == "proj" and contains(inner, lambda y: y is src) and not s[1:].isdigit()):
                    continue
        todo.extend(kids(x))
    return False


# ---------------------------------------------------------------- closures and small arithmetic
def is_closure(v):
    return v.k == "agg" and v.a[0] == "closure"


def closures(v):
    return [x for x in subterms(v) if is_closure(x)]


def closure_rets(ctx, clo, nargs=None, names=("elem",)):
    """what a closure returns for unknown arguments: [(term, refinements)]"""
    body = ctx.f.body(clo.a[1])
    if body is None:
        return []
    n = body.argc - 1
    args = [param(names[i] if i < len(names) else "elem%d" % i) for i in range(n)]
    if n == 1 and len(names) > 1:
        args = [agg("()", "", [(str(i), param(x)) for i, x in enumerate(names)])]
    out = []
    r = Trace(want=lambda c: False, on_ret=lambda eng, st, h, v: out.append((v, dict(st.ref))))
    r.keep_all_refinements = True
    ctx.run(r, body, dict(enumerate([clo] + args, 1)), what="closure of " + owner_path(ctx.f, body))
    return out


CONV = {"From::from", "Into::into", "TryFrom::try_from", "TryInto::try_into", "convert::From::from"}


def unconv(v):
    while True:
        if v.k in ("call", "pure") and v.a[0] in CONV:
            v = (v.a[2] if v.k == "call" else v.a[1])[0]
        elif v.k == "op" and v.a[0].startswith("Cast") and len(v.a) > 1:
            v = v.a[1]
        elif v.k == "proj" and v.a[1] in ("@Ok", "@Some") :
            v2 = v.a[0]
            if v2.k in ("call", "pure") and v2.a[0] in CONV:
                v = v2
            else:
                return v
        elif v.k == "proj" and v.a[1] == ".0" and v.a[0].k == "proj" and v.a[0].a[1] == "@Ok":
            v2 = v.a[0].a[0]
            if v2.k in ("call", "pure") and v2.a[0] in CONV:
                v = v2
            else:
                return v
        else:
            return v


def linear(v):
    """(base, offset) of a number"""
    off = 0
    while True:
        v = unconv(v)
        if v.k == "op" and v.a[0] in ("Add", "AddUnchecked", "Sub", "SubUnchecked") and len(v.a) == 3:
            x, y = unconv(v.a[1]), unconv(v.a[2])
            sg = 1 if v.a[0].startswith("Add") else -1
            if y.k == "c" and isinstance(y.a[0], int):
                off += sg * y.a[0]
                v = x
                continue
            if sg == 1 and x.k == "c" and isinstance(x.a[0], int):
                off += x.a[0]
                v = y
                continue
        return v, off


def args_of(v):
    return v.a[2] if v.k == "call" else v.a[1] if v.k == "pure" else ()


def tail(v):
    return v.a[0].rsplit("::", 1)[-1] if v.k in ("call", "pure", "mut") else ""
