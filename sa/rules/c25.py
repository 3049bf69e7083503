"""C25: No two tasks can deadlock on the server's locks.

The order in which locks are taken is collected from every body (a lock taken, or
a function entered that takes one, while another is held) and must be acyclic,
with no lock taken again while it is held."""
from common import *
from rules.locks import locks_of, name


def check(ctx):
    L = locks_of(ctx)
    ctx.explanation = ("may-held flow of every guard through moves, drops and storage ends in the MIR of every function, async body and closure; "
                       "effects of a future count where it is polled; summaries over the call graph; locks are identified by field and content")
    ctx.rules.append("if some task takes lock B (itself or through a call) while it holds lock A, then no task takes A, through any chain, while it holds B; and nobody takes A while it holds A")
    ctx.assumptions.append("all locks of one field are treated as one lock (taking two of them at once counts as taking one twice); try_lock does not wait")
    ctx.assumptions.append("locks inside the standard library, tokio and other crates are not part of the order")
    order = L.order()
    ctx.bodies |= {b.id for b in L.bodies}
    ctx.entries += sorted({strip_generics(b.path) for b in L.bodies if any(e[0] == "lock" for e in L.events[b.id])})
    ctx.sites |= {(b.id, e[3]) for b in L.bodies for e in L.events[b.id]}
    succ = {}
    for a, b in order:
        succ.setdefault(a, set()).add(b)

    def path(a, b):
        """a chain of edges from a to b"""
        todo, seen = [(a, (a,))], {a}
        while todo:
            x, p = todo.pop(0)
            for y in sorted(succ.get(x, ())):
                if y == b:
                    return p + (y,)
                if y not in seen:
                    seen.add(y)
                    todo.append((y, p + (y,)))
        return None
    for (a, b), where in sorted(order.items()):
        fn, sp = sorted(where)[0]
        sa, sb = short(a), short(b)
        if a == b:
            ctx.oblige("%s is not taken while it is held" % sa, False, "self:%s:%s" % (sa, fn.rsplit("::", 1)[-1]),
                       "%s takes %s while it may already hold it: it would wait for itself" % (fn, a), sp)
            continue
        back = path(b, a)
        if back is None:
            ctx.oblige("%s before %s in %s" % (sa, sb, ", ".join(sorted({w for w, _ in where}))), True, span=sp)
            continue
        trail = []
        for x, y in zip(back, back[1:]):
            for w, s in sorted(order[(x, y)]):
                trail.append("%s is taken while %s is held, in %s (%s)" % (y, x, w, s))
        ctx.oblige("%s before %s" % (sa, sb), False, "cycle:%s>%s" % (sa, sb),
                   "%s takes %s while it holds %s, but elsewhere %s is held when %s is taken" % (fn, b, a, sb, sa), sp, trail)
    ctx.count("locks", len({name(l) for l in L.nlocks}), 6)
    ctx.count("lock sites", sum(1 for b in L.bodies for e in L.events[b.id] if e[0] == "lock"), 20)
    ctx.count("awaits", L.awaits, 150)


def short(n):
    return n.split(":", 1)[0] if ":" in n else n
