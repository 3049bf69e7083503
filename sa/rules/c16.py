"""C16: a sequence runs in order and stops at the first failure."""
from common import *
from rules.dispatch import *


def want(c):
    return c.name in ("transform_with_reply",) and c.local or c.name in ("push", "next", "pop", "insert", "remove", "truncate", "swap_remove", "clear") and not c.local


def check(ctx):
    ctx.explanation = ("All paths through the handling of a sequence are followed around its loop. Each operation taken from the list is executed at most once, "
                       "with the request as given if nothing came before it and else with the request transformed by the preceding reply, known not to be an "
                       "error; it is awaited before its result is stored; each operation stores exactly one result; the loop is left only when the list is "
                       "exhausted; and the stored results reach the reply in order, each as it is or as an error.")
    ctx.rules = ["operations are taken from the request's list in order, to its end", "an operation runs only if the preceding reply is known not to be an error",
                 "first operation as given, later ones transformed with the preceding reply", "an operation is awaited before the next one starts",
                 "one result is stored per operation: its own reply or an error", "the reply's results are the stored ones, in order"]
    checked = set()
    n = {"exec": 0, "ret": 0, "push": 0, "raw": 0, "tr": 0}
    ops = mk("proj", mk("proj", mk("proj", param("request"), "@Sequence"), ".0"), ".operations")

    def is_src(t):
        root, stages = chain_of(t)
        return root is ops and not stages

    def since_next(hist):
        """events of the current iteration, the last `next` on the list of operations first"""
        i = None
        for j, e in enumerate(hist):
            if e.kind == "call" and e.name == "next" and is_src(e.terms[0]):
                i = j
        return None if i is None else hist[i:]

    def prev_state(st, hist, prev):
        """does `prev` denote the preceding reply?  is it known not to be an error?"""
        p = peel(prev)
        if p.k == "proj" and p.a[1] == ".0" and p.a[0].k == "proj" and p.a[0].a[1] == "@Some":
            p0 = p.a[0].a[0]
            if tail(p0) in ("last", "last_mut", "next_back") and is_results(args_of(p0)[0]):
                return True
            p = peel(p0)
        pushed = last_push(hist)
        return pushed is not None and (p is pushed or contains(p, lambda x: x is pushed) or contains(pushed, lambda x: x is p))

    def is_results(v):
        root, stages = chain_of(v)
        return not stages and (root.k == "mut" or is_empty_seq(root))

    def last_push(hist):
        for e in reversed(hist):
            if e.kind == "call" and e.name == "push":
                return e.terms[1]
        return None

    def known_not_error(refs, x):
        for k in (x, peel(x)):
            r = refs.get(k)
            if r is not None and (r[0] == "not" and "Error" in r[1] or r[0] == "is" and r[1] != "Error"):
                return True
        return x.k == "agg" and path_match(x.a[0], "Reply") and x.a[1] != "Error"

    def prev_not_error(eng, st, hist):
        refs = dict(eng.dropped)
        refs.update(st.ref)
        for k, r in refs.items():
            if r[0] == "not" and "Error" in r[1] or r[0] == "is" and isinstance(r[1], str) and r[1] != "Error":
                if r[0] == "is" and r[1] in ("Ok", "Err", "Some", "None", "Sequence"):
                    continue
                if prev_state(st, hist, k):
                    return True
        p = last_push(hist)
        return p is not None and known_not_error(refs, p)

    def no_prev(st, hist):
        for k, r in st.ref.items():
            if r == ("is", "None") and tail(peel(k)) in ("last", "last_mut", "next_back", "first") and args_of(peel(k)) and is_results(args_of(peel(k))[0]):
                return True
        return last_push(hist) is None

    def on_event(eng, st, hist, ev):
        if kind_of(st) != "Sequence" or ev.kind not in ("call", "aw"):
            return
        if ev.kind == "aw":
            return
        cur = since_next(hist)
        if ev.name == "next" and is_src(ev.terms[0]):
            if cur is not None:
                stored(eng, st, cur, ev.span)
            return
        if ev.name in ("pop", "remove", "truncate", "swap_remove", "clear", "insert"):
            if ev.terms and (is_results(ev.terms[0]) or is_src(ev.terms[0])):
                eng.report("list", "a sequence's list is changed by %s" % ev.short, st, ev.span)
            return
        if ev.name == "push":
            n["push"] += 1
            return
        if ev.name == ROUTER:
            n["exec"] += 1
            if cur is None:
                eng.report("outside", "an operation is executed outside the loop over the operations", st, ev.span)
                return
            if any(e.kind == "call" and e.name == ROUTER for e in cur):
                eng.report("twice", "an operation of a sequence is executed more than once", st, ev.span)
            if any(e.kind == "call" and e.name == "push" for e in cur):
                eng.report("late", "an operation is executed after its result was stored", st, ev.span)
            req = ev.terms[1]
            what(eng, st, hist, req, ev.span)

    def what(eng, st, hist, req, span):
        r = peel(req)
        if r.k == "proj" and r.a[1] == ".0" and r.a[0].k == "proj" and r.a[0].a[1] == "@Ok" and tail(r.a[0].a[0]) == "transform_with_reply":
            c = r.a[0].a[0]
            a = args_of(c)
            n["tr"] += 1
            src = elem_of(a[0])
            if src is None or not is_src(src):
                eng.report("which", "what is executed is not the next operation of the sequence", st, span)
            if not prev_state(st, hist, a[1]):
                eng.report("previous", "an operation is transformed with something other than the immediately preceding reply", st, span)
            if not prev_not_error(eng, st, hist):
                eng.report("goon", "an operation is executed although the preceding one may have failed", st, span)
            return
        if r.k == "proj" and r.a[1] == ".raw_request":
            src = elem_of(r.a[0])
            n["raw"] += 1
            if src is None or not is_src(src):
                eng.report("which", "what is executed is not the next operation of the sequence", st, span)
            if no_prev(st, hist):
                return
            if not rules_empty(st, r.a[0]):
                eng.report("raw", "an operation that is not the first is executed without being transformed", st, span)
            if not prev_not_error(eng, st, hist):
                eng.report("goon", "an operation is executed although the preceding one may have failed", st, span)
            return
        eng.report("which", "what is executed (%s) is neither the operation as given nor transformed with the preceding reply" % show(r, 3), st, span)

    def rules_empty(st, op):
        rules = mk("proj", op, ".rules")
        return any(r == ("is", True) and tail(k) == "is_empty" and contains(k, lambda x: x is rules) for k, r in st.ref.items())

    def stored(eng, st, cur, span):
        pushes = [e for e in cur if e.kind == "call" and e.name == "push"]
        runs = [e for e in cur if e.kind == "call" and e.name == ROUTER]
        if len(pushes) != 1:
            eng.report("one", "an operation of a sequence gets %s results" % ("no" if not pushes else "several"), st, span)
            return
        v = peel(pushes[0].terms[1])
        if runs:
            res = runs[0].res
            i, j = cur.index(runs[0]), cur.index(pushes[0])
            if not any(e.kind == "aw" and contains(e.terms[0], lambda x: x is res) for e in cur[i:j]):
                eng.report("await", "an operation's result is stored before the operation is done", st, span)
            if v is not res and not (is_reply(v, "Error") and st_is(st, res, "Ignore")):
                eng.report("result", "the stored result (%s) is not the reply of the operation" % show(v, 2), st, span)
        elif not is_reply(v, "Error"):
            eng.report("result", "an operation that was not executed is answered by %s, not by an error" % show(v, 2), st, span)

    def st_is(st, t, name):
        return st.ref.get(t) == ("is", name)

    def on_ret(eng, st, hist, val):
        if kind_of(st) != "Sequence" or known_zero(st):
            return
        n["ret"] += 1
        cur = since_next(hist)
        if cur is None or st.ref.get(cur[0].res) != ("is", "None"):
            if not any(e.kind == "br" and cur and e.terms[0] is cur[0].res and e.res == "None" for e in (cur or ())):
                eng.report("leave", "a sequence can be answered before all its operations were looked at", st)
        v = results_of(eng.term(st, val), "Sequence")
        if v is None:
            eng.report("reply", "a sequence is answered by something other than its results", st)
            return
        root, stages = chain_of(v)
        if not (root.k == "mut" or is_empty_seq(root)):
            eng.report("reply", "the results in the reply to a sequence are not the stored ones in order: %s" % show(v, 3), st)
            return
        nst = Nested(ctx, eng, "Sequence", st.ref)
        for s in stages:
            if s not in checked:
                checked.add(s)
                nst.stage(s, st)
    def alias(eng, st, call):
        c = call.callee
        if is_router(c):
            return mk("call", "nested", call.site, ())
        if c.name in ("last", "last_mut", "pop") and call.terms and is_empty_seq(peel(call.terms[0])):
            return agg("std::option::Option", "None", ())
        return None

    def spy(eng, st, call):
        c = call.callee
        if c is None or kind_of(st) != "Sequence" or not call.types:
            return
        ty = call.types[0]
        if ty.startswith("&mut ") and "Vec<" in ty and "Reply>" in ty and "Drain" not in ty and "IntoIter" not in ty:
            if c.name not in ("push", "reserve", "last_mut", "deref_mut", "iter_mut", "as_mut", "as_mut_slice", "drain", "into_iter", "extend"):
                eng.report("list", "the results of a sequence are changed by %s" % c.short, st, call.span)

    def trim(h):
        # an iteration is judged on its own, knowing only what was stored last
        e = h[-1]
        if e.kind == "call" and e.name == "next" and is_src(e.terms[0]):
            p = [x for x in h if x.kind == "call" and x.name == "push"][-1:]
            return p + [e]
        return h
    explore_router(ctx, on_event=on_event, on_ret=on_ret, want=want, opaque=lambda c: c.name == "transform_with_reply", max_hist=14, wantbranch=lambda t: False,
                   alias=alias, trim=trim, spy=spy, kind="Sequence")
    ctx.count("executions of an operation of a sequence", n["exec"], 1)
    ctx.count("operations executed as given", n["raw"], 1)
    ctx.count("operations executed after a transformation", n["tr"], 1)
    ctx.count("answers to a sequence", n["ret"], 1)
