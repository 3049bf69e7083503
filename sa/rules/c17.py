"""C17: a batch executes every operation and answers each in its position."""
from common import *
from rules.dispatch import *


def is_spawn(v):
    return v.k == "call" and tail(v) in ("spawn", "spawn_on") and "spawn" in v.a[0]


def check(ctx):
    ctx.explanation = ("The reply to a batch is traced back, through every order-keeping step, to the request's list of operations. The step that turns an operation "
                       "into a task must execute exactly that operation, once, in a task of its own, and must not wait for it; a crashed task and a missing "
                       "reply must become an error, and nothing else may be added, dropped, replaced or reordered.")
    ctx.rules = ["results are the order-keeping image of the request's operations", "each operation is executed exactly once in its own task, not awaited before the next is started",
                 "a crashed task becomes an error in its position", "a missing reply becomes an error in its position", "other replies are kept as they are"]
    ops = mk("proj", mk("proj", mk("proj", param("request"), "@Batch"), ".0"), ".operations")
    n = {"ret": 0, "exec": 0}
    flags = {"joins": False, "answers": False, "run": False}
    shapes = {}

    def src(t):
        root, stages = chain_of(t)
        return root if not stages and (root is ops or root.k == "mut") else None

    def cur_loop(hist):
        i = None
        for j, e in enumerate(hist):
            if e.kind == "call" and e.name == "next" and src(e.terms[0]) is not None:
                i = j
        return None if i is None else hist[i:]

    def closing(eng, st, cur, span):
        pushes = [e for e in cur if e.kind == "call" and e.name == "push"]
        over = src(cur[0].terms[0])
        runs = [e for e in cur if e.kind == "call" and e.name == ROUTER]
        if len(pushes) != 1:
            eng.report("one", "an element of a batch gets %s results" % ("no" if not pushes else "several"), st, span)
            return
        v = peel(pushes[0].terms[1])
        if over is ops:
            if len(runs) != 1:
                eng.report("exec", "an operation of a batch is executed %s" % ("never" if not runs else "more than once"), st, span)
                return
            if any(e.kind == "aw" and contains(e.terms[0], lambda x: x is runs[0].res) for e in cur):
                eng.report("concurrent", "an operation of a batch is waited for before the next one is started", st, span)
            if not contains(v, lambda x: x is runs[0].res):
                eng.report("result", "what is stored for an operation of a batch is not its own task", st, span)
            flags["run"] = True
            if not contains(v, is_spawn):
                eng.report("crash", "an operation of a batch is not executed in a task of its own", st, span)

    def classify(eng, st, v, ref, e, span):
        if is_reply(v, "Error"):
            if ref.get(e) == ("is", "Err"):
                flags["joins"] = True
            elif ref.get(eng_ok(e)) == ("is", "Ignore") or ref.get(e) == ("is", "Ignore"):
                flags["answers"] = True
            else:
                eng.report("stage:Batch", "a result of a batch can be replaced by an error for no reason of its own", st, span)
        elif v is not e and v is not eng_ok(e):
            eng.report("stage:Batch", "a result of a batch is replaced by %s" % show(v, 2), st, span)

    def on_event(eng, st, hist, ev):
        if kind_of(st) != "Batch" or ev.kind != "call":
            return
        cur = cur_loop(hist)
        if ev.name == "next":
            if cur is not None and cur[0].res is ev.res:
                closing(eng, st, cur, ev.span)
            return
        if ev.name == "push" and cur is not None and src(cur[0].terms[0]) is not ops:
            e = mk("proj", mk("proj", cur[0].res, "@Some"), ".0")
            classify(eng, st, peel(ev.terms[1]), st.ref, e, ev.span)
            return
        if ev.name == ROUTER:
            n["exec"] += 1
            if cur is None or src(cur[0].terms[0]) is not ops or elem_of(ev.terms[1]) is None or elem_of(ev.terms[1]) is not cur[0].terms[0]:
                eng.report("which", "what is executed is not the next operation of the batch", st, ev.span)

    def first_stage(eng, st, fv):
        e = param("elem")
        rets = apply_fn(ctx, fv, e, want=lambda c: is_router(c) or c.name in ("spawn", "spawn_local", "spawn_on"))
        if not rets:
            eng.report("exec", "the operations of a batch are handed to something whose effect is unknown", st)
            return
        for v, ref, h in rets:
            v = peel(v)
            runs = [x for x in h if x.kind == "call" and x.name == ROUTER]
            n["exec"] += len(runs)
            if len(runs) != 1:
                eng.report("exec", "an operation of a batch is executed %s" % ("never" if not runs else "more than once"), st)
                continue
            if peel(runs[0].terms[1]) is not e:
                eng.report("which", "what is executed is not the operation of that position", st, runs[0].span)
            flags["run"] = True
            sp = [x for x in subterms(v) if is_spawn(x)] or [x.res for x in h if x.kind == "call" and x.name.startswith("spawn") and contains(x.res, lambda y: y is runs[0].res)]
            if not sp:
                eng.report("crash", "an operation of a batch is not executed in a task of its own", st, runs[0].span)
                continue
            if v is sp[0]:
                continue
            classify(eng, st, v, ref, sp[0], runs[0].span)

    done = set()

    def on_ret(eng, st, hist, val):
        if kind_of(st) != "Batch" or known_zero(st):
            return
        n["ret"] += 1
        cur = cur_loop(hist)
        if cur is not None and st.ref.get(cur[0].res) != ("is", "None"):
            eng.report("leave", "a batch can be answered before all its operations were looked at", st)
        v = results_of(eng.term(st, val), "Batch")
        if v is None:
            eng.report("reply", "a batch is answered by something other than its results", st)
            return
        walk(eng, st, v)

    def walk(eng, st, v):
        root, stages = chain_of(v)
        if (root, tuple(stages)) in done:
            return
        done.add((root, tuple(stages)))
        own = list(reversed(stages))
        if root is ops:
            if not own:
                eng.report("exec", "the operations of a batch are not executed", st)
                return
            first_stage(eng, st, own[0])
            own = own[1:]
        elif root.k == "mut" or is_empty_seq(root):
            # stored one by one: each loop was checked on its own; follow what it looped over
            pass
        else:
            eng.report("reply", "the results in the reply to a batch are not the image of its operations in order: %s" % show(v, 3), st)
            return
        nst = Nested(ctx, eng, "Batch", st.ref)
        for s in own:
            nst.stage(s, st)
        flags["joins"] |= nst.joins
        flags["answers"] |= nst.answers

    def spy(eng, st, call):
        c = call.callee
        if c is None or kind_of(st) != "Batch" or not call.types:
            return
        ty = call.types[0]
        if any(w in x for x in call.types for w in ("FuturesUnordered", "BufferUnordered", "JoinSet", "SelectAll")):
            eng.report("order", "the results of a batch are collected in the order they become available (%s)" % c.short, st, call.span)
        if ty.startswith("&mut ") and "Vec<" in ty and ("Reply>" in ty or "JoinHandle<" in ty or "JoinError>" in ty) and "Drain" not in ty and "IntoIter" not in ty:
            if c.name not in ("push", "reserve", "last_mut", "deref_mut", "iter_mut", "as_mut", "as_mut_slice", "drain", "into_iter", "extend"):
                eng.report("list", "the results of a batch are changed by %s" % c.short, st, call.span)

    def trim(h):
        e = h[-1]
        if e.kind == "call" and e.name == "next" and src(e.terms[0]) is not None:
            return [e]
        return h

    def alias(eng, st, call):
        return None
    explore_router(ctx, on_event=on_event, on_ret=on_ret, want=lambda c: c.name in ("push", "next") and not c.local, max_hist=14, wantbranch=lambda t: False,
                   trim=trim, spy=spy, kind="Batch")
    ctx.count("executions of an operation of a batch", n["exec"], 1)
    ctx.count("answers to a batch", n["ret"], 1)
    bad = ctx.inconclusive or ctx.violations
    ctx.oblige("every operation of a batch is executed", bad or flags["run"], "exec", "the operations of a batch are not executed")
    ctx.oblige("a crashed operation is answered by an error", bad or flags["joins"], "crash", "a crashed operation of a batch is not answered by an error")
    ctx.oblige("an operation without a reply is answered by an error", bad or flags["answers"], "unanswered", "an operation without a reply is not answered by an error in the reply to a batch")
