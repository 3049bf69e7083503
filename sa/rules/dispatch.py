"""The request router: every path through `route_and_execute`, with the
operations it calls kept as single steps."""
from common import *

ROUTER = "route_and_execute"

# request kind -> (the operation of that name, the reply kind that belongs to it)
TABLE = {
    "Heartbeat": ("heartbeat", "Heartbeat"), "Version": ("version", "Version"), "Capabilities": ("capabilities", "Capabilities"),
    "OpenFile": ("open_file", "FileOpened"), "CloseFile": ("close_file", "FileClosed"),
    "RenameUnopenedFile": ("rename_unopened_file", "UnopenedFileRenamed"), "RenameFile": ("rename_file", "FileRenamed"),
    "RemoveUnopenedFile": ("remove_unopened_file", "UnopenedFileRemoved"), "RemoveFile": ("remove_file", "FileRemoved"),
    "ReadFile": ("read_file", "FileContents"), "WriteFile": ("write_file", "FileWritten"),
    "CreateDir": ("create_dir", "DirCreated"), "RenameDir": ("rename_dir", "DirRenamed"), "RemoveDir": ("remove_dir", "DirRemoved"),
    "ListDirContents": ("list_dir_contents", "DirContentsList"), "ExecProc": ("exec_proc", "ProcStarted"),
    "WriteProcStdin": ("write_proc_stdin", "ProcStdinWritten"), "ReadProcStdout": ("read_proc_stdout", "ProcStdoutContents"),
    "ReadProcStderr": ("read_proc_stderr", "ProcStderrContents"), "ReadProcStatus": ("read_proc_status", "ProcStatus"),
    "KillProc": ("kill_proc", "ProcKilled"), "InternalDebug": ("internal_debug", "InternalDebug"), "Custom": ("invoke", "Custom"),
}
NESTED = {"Sequence", "Batch"}
UNANSWERED = {"Forward"}
OPERATIONS = {v[0] for v in TABLE.values()}


def is_operation(c):
    if not c.local:
        return False
    if c.name == "invoke":
        return path_match(c.self_adt, "CustomHandler")
    return c.name in OPERATIONS and "handler" in c.path


def is_router(c):
    return c.local and c.name == ROUTER


ITER = {"map", "collect", "join_all", "try_join_all", "drain", "into_iter", "iter", "iter_mut", "next", "for_each", "filter", "filter_map", "fold",
        "extend", "rev", "zip", "enumerate", "chain", "take_while", "skip_while", "any", "all", "flat_map", "then", "scan", "take", "skip", "inspect"}


class RouterTrace(Trace):
    max_hist = 60

    def runs_closures(self, callee):
        if not super().runs_closures(callee):
            return False
        if callee.name in ITER and not any(x in callee.path for x in ("option::Option", "result::Result")):
            return False
        return True


def router_bodies(ctx):
    """the code the router runs when its future is polled, with what it captures"""
    out = []
    for b in ctx.anchor(ctx.f.fns(ROUTER), "the request router (%s)" % ROUTER):
        c = ctx.f.coroutine_of(b)
        if c is not None and c is not b:
            out.append((b, c, None))
            continue
        futs = []

        def boxed(eng, st, call):
            if call.callee is not None and call.callee.name in ("boxed", "boxed_local", "pin", "new") and call.terms and call.terms[0].k == "agg":
                return call.terms[0]
            return None
        r = Trace(want=lambda c: False, value=boxed, on_ret=lambda eng, st, h, v: futs.append(v))
        r.relevant_body = lambda bb: bb.file() == "src/core/server/action/mod.rs" and bb.kind == "fn"
        r.runs_closures = lambda c: False
        ctx.run(r, b)
        seen = set()
        for v in futs:
            for x in subterms(v):
                if x.k == "agg" and x.a[0] == "coroutine" and x not in seen:
                    seen.add(x)
                    cb = ctx.f.body(x.a[1])
                    if cb is not None:
                        out.append((b, cb, {1: x}))
        if not seen:
            ctx.violation("anchor:router future", "cannot find what %s runs" % ROUTER)
    return out


def router_relevant(b):
    return b.file().startswith(("src/core/server/action/mod.rs", "src/core/msg/content/reply", "src/core/msg/content/request/mod.rs")) and not b.derived


def explore_router(ctx, on_event=None, on_ret=None, want=None, opaque=None, wantbranch=None, max_states=60000, spy=None, max_hist=None, alias=None, trim=None, kind=None):
    """paths of the router; the default steps are operations and nested routings"""
    w = want or (lambda c: False)

    def wanted(c):
        return is_operation(c) or is_router(c) or w(c)

    def op(c):
        return is_operation(c) or is_router(c) or (opaque(c) if opaque else False)
    for b, c, args in router_bodies(ctx):
        r = RouterTrace(want=wanted, on_event=on_event, on_ret=on_ret, opaque=op, relevant=wanted, max_states=max_states, wantbranch=wantbranch)
        r.relevant_body = router_relevant
        r.keep_all_refinements = True
        r.spy = spy
        r.alias = alias
        r.trim = trim
        if kind is not None:
            r.known = {param("request"): ("is", kind)}
        if max_hist is not None:
            r.max_hist = max_hist
        ctx.run(r, c, args)


def request_term(st):
    """the request of a path: the parameter of that type"""
    return param("request")


def kind_of(st, term=None):
    r = st.ref.get(term if term is not None else param("request"))
    return r[1] if r is not None and r[0] == "is" else None


def known_nonzero(st, d=None):
    """does the path know that the depth budget is not used up?"""
    d = d if d is not None else param("max_depth")
    for k, r in st.ref.items():
        if k is d:
            if r[0] == "not" and 0 in r[1] or r[0] == "is" and isinstance(r[1], int) and r[1] > 0:
                return True
        if k.k == "op" and len(k.a) == 3 and r[0] == "is":
            o, x, y = k.a[0], unconv(k.a[1]), unconv(k.a[2])
            val = r[1]
            if o == "Eq" and val is False and (x is d and is_c(y, 0) or y is d and is_c(x, 0)):
                return True
            if o == "Ne" and val is True and (x is d and is_c(y, 0) or y is d and is_c(x, 0)):
                return True
            if o == "Gt" and val is True and x is d and y.k == "c" and y.a[0] >= 0:
                return True
            if o == "Lt" and val is True and y is d and x.k == "c" and x.a[0] >= 0:
                return True
            if o == "Ge" and val is True and x is d and y.k == "c" and y.a[0] >= 1:
                return True
            if o == "Le" and val is True and y is d and x.k == "c" and x.a[0] >= 1:
                return True
            if o == "Le" and val is False and x is d and y.k == "c" and y.a[0] >= 0:
                return True
            if o == "Lt" and val is False and x is d and y.k == "c" and y.a[0] >= 1:
                return True
        if r == ("is", "Some") and tail(k) == "checked_sub" and args_of(k)[0] is d:
            return True
    return False


def known_zero(st, d=None):
    d = d if d is not None else param("max_depth")
    for k, r in st.ref.items():
        if k is d and r == ("is", 0):
            return True
        if k.k == "op" and len(k.a) == 3 and r[0] == "is":
            o, x, y = k.a[0], unconv(k.a[1]), unconv(k.a[2])
            if o == "Eq" and r[1] is True and (x is d and is_c(y, 0) or y is d and is_c(x, 0)):
                return True
            if o == "Ne" and r[1] is False and (x is d and is_c(y, 0) or y is d and is_c(x, 0)):
                return True
            if o == "Gt" and r[1] is False and x is d and is_c(y, 0):
                return True
            if o == "Lt" and r[1] is False and y is d and is_c(x, 0):
                return True
            if o == "Lt" and r[1] is True and x is d and is_c(y, 1):
                return True
            if o == "Ge" and r[1] is False and x is d and is_c(y, 1):
                return True
            if o == "Le" and r[1] is True and x is d and is_c(y, 0):
                return True
        if r == ("is", "None") and tail(k) == "checked_sub" and args_of(k)[0] is d:
            return True
    return False


def is_c(x, n):
    return x.k == "c" and x.a[0] == n and not isinstance(x.a[0], bool)


def is_reply(v, *names):
    return v.k == "agg" and path_match(v.a[0], "Reply") and v.a[1] in names


def payload(v):
    return dict(v.a[2]).get("0")


def peel(v):
    """through copies and references that keep the value"""
    while v.k in ("call", "pure") and tail(v) in ("clone", "cloned", "to_owned", "copied", "borrow", "as_ref") and args_of(v):
        v = args_of(v)[0]
    return v


# ---------------------------------------------------------------- sequences of values
SAME = {"into_iter", "iter", "iter_mut", "collect", "into_boxed_slice", "into_vec", "to_vec", "from_iter", "join_all", "deref", "deref_mut", "as_slice",
        "from", "into", "by_ref", "cloned", "copied", "as_ref", "as_mut", "into_inner", "clone", "fuse"}


def is_empty_seq(v):
    return v.k in ("call", "pure") and tail(v) in ("new", "with_capacity", "default") or v.k == "agg" and v.a[0] in ("array", "slice") and not v.a[2]


def chain_of(v):
    """(root, stages): the sequence `v` is made of by order-keeping one-to-one steps, and the functions applied on the way, last first"""
    stages = []
    while True:
        if v.k in ("call", "pure"):
            n, a = tail(v), args_of(v)
            if n in SAME and a:
                v = a[0]
                continue
            if n == "drain" and len(a) > 1 and contains(a[1], lambda x: x.k == "agg" and "RangeFull" in x.a[0]):
                v = a[0]
                continue
            if n == "map" and len(a) > 1 and "Option" not in v.a[0] and "Result" not in v.a[0]:
                stages.append(a[1])
                v = a[0]
                continue
            if n == "await" and a:
                v = a[0]
                continue
        if v.k == "proj" and v.a[1] in ("@Ready", ".0") and v.a[0].k in ("call", "pure", "proj") and (v.a[1] == "@Ready" or v.a[0].k == "proj" and v.a[0].a[1] == "@Ready"):
            v = v.a[0]
            continue
        if v.k == "mut" and v.a[0].rsplit("::", 1)[-1] == "extend" and is_empty_seq(v.a[3][0]):
            v = v.a[3][1]
            continue
        return v, stages


def elem_of(v):
    """the sequence whose next element `v` is, if it is one"""
    v = peel(v)
    if v.k == "proj" and v.a[1] == ".0" and v.a[0].k == "proj" and v.a[0].a[1] == "@Some" and tail(v.a[0].a[0]) == "next":
        return args_of(v.a[0].a[0])[0]
    return None


def apply_fn(ctx, fv, arg, relevant=router_relevant, opaque=None, want=None):
    """what a function value returns for `arg`: [(value, refinements, history)]"""
    out = []
    args = None
    if is_closure(fv):
        b = ctx.f.body(fv.a[1])
        args = {1: fv, 2: arg}
    elif fv.k == "fn":
        b = ctx.f.body(fv.a[0])
        args = {1: arg}
    else:
        return None
    if b is None:
        return None

    def done(eng, st, h, v):
        v = eng.term(st, v)
        if v.k == "agg" and v.a[0] == "coroutine":
            cb = ctx.f.body(v.a[1])
            if cb is not None:
                r2 = RouterTrace(want=want or is_router, opaque=opaque or is_router, on_ret=lambda e, s, hh, vv: out.append((e.term(s, vv), dict(s.ref), hh)))
                r2.relevant_body = relevant
                r2.keep_all_refinements = True
                ctx.run(r2, cb, {1: v})
                return
        out.append((v, dict(st.ref), h))
    r = RouterTrace(want=want or is_router, opaque=opaque or is_router, on_ret=done)
    r.relevant_body = relevant
    r.keep_all_refinements = True
    ctx.run(r, b, args)
    return out


def not_ignore(v, ref):
    """is the reply known not to be the one that cannot be sent?"""
    if v.k == "agg" and path_match(v.a[0], "Reply"):
        return v.a[1] != "Ignore"
    r = ref.get(v)
    return r is not None and (r[0] == "is" and r[1] != "Ignore" or r[0] == "not" and "Ignore" in r[1])


class Nested:
    """how the replies of nested operations get from their execution into the reply's list"""

    def __init__(self, ctx, eng, kind, refs):
        self.ctx, self.eng, self.kind, self.refs = ctx, eng, kind, refs
        self.answers = False        # is a missing reply replaced by an error?
        self.joins = False          # is a crashed operation replaced by an error?

    def stage(self, fv, st):
        """one function applied to every result; keeps it or makes an error of it"""
        e = param("elem")
        rets = apply_fn(self.ctx, fv, e)
        if rets is None:
            if fv.k == "fn" and fv.a[0].rsplit("::", 1)[-1] in ("clone", "into", "from"):
                return True
            self.eng.report("stage:" + self.kind, "the results of a %s pass through %s, whose effect is unknown" % (self.kind.lower(), show(fv, 2)), st)
            return False
        okvals = []
        good = bool(rets)
        for v, ref, h in rets:
            p = peel(v)
            if p is e or p is eng_ok(e):
                okvals.append((p, ref))
                continue
            if is_reply(p, "Error"):
                continue
            good = False
            self.eng.report("stage:" + self.kind, "a result of a %s is replaced by %s" % (self.kind.lower(), show(v, 2)), st)
        for v, ref, h in rets:
            if is_reply(peel(v), "Error"):
                # only a missing reply or a crash may become an error here
                r = ref.get(e)
                if r == ("is", "Err"):
                    self.joins = True
                elif r == ("is", "Ignore") or ref.get(eng_ok(e)) == ("is", "Ignore"):
                    self.answers = True
                elif not any(contains(k, lambda x: x is e) and rr == ("is", "Err") for k, rr in ref.items()) and not (r is not None and r == ("is", "Error")):
                    good = False
                    self.eng.report("stage:" + self.kind, "a result of a %s can be replaced by an error for no reason of its own" % self.kind.lower(), st)
        if not okvals:
            good = False
            self.eng.report("stage:" + self.kind, "the results of a %s are dropped" % self.kind.lower(), st)
        return good


def eng_ok(e):
    return mk("proj", mk("proj", e, "@Ok"), ".0")


def results_of(val, kind):
    """the list of results in a reply"""
    if not is_reply(val, kind):
        return None
    p = payload(val)
    if p is not None and p.k == "agg":
        return dict(p.a[2]).get("results")
    if p is not None and p.k in ("call", "pure") and tail(p) in ("from", "into"):
        return args_of(p)[0]
    return None
