"""C26: No lock is held while waiting for a peer or a process.

At every point where a task may wait for something outside (a channel, a socket,
a timer, another task, a process or its pipes), in its own body or in a function
it runs there, it holds no guard."""
from common import *
from rules.locks import locks_of, name


def check(ctx):
    L = locks_of(ctx)
    ctx.explanation = ("may-held flow of every guard through moves, drops and storage ends in the MIR of every function, async body and closure; the future polled at each await is "
                       "traced to the calls that made it; waits are summarised over the call graph")
    ctx.rules.append("no await of a channel, socket, timer, task, process, pipe or unknown future, and no call that makes the thread wait, while a lock may be held")
    ctx.assumptions.append("operations of tokio::fs on paths and files end by themselves; taking another lock is C25's")
    ctx.assumptions.append("a poll_fn whose closure never returns Pending does not wait")
    ctx.bodies |= {b.id for b in L.bodies}
    ctx.entries += sorted({strip_generics(b.path) for b in L.bodies if any(e[0] == "lock" for e in L.events[b.id])})
    ctx.sites |= {(b.id, e[3]) for b in L.bodies for e in L.events[b.id]}
    bad = {}
    for fn, locks, what, via, sp in L.waits_held():
        for l in locks:
            bad.setdefault((l.split(":", 1)[0], what), []).append((fn, via, sp))
    for (l, what), where in sorted(bad.items()):
        fn, via, sp = sorted(where)[0]
        trail = ["%s%s (%s)" % (f, " through " + v if v else "", s) for f, v, s in sorted(where)]
        ctx.oblige("waits for %s hold no lock" % what, False, "held:%s:%s" % (l, what.rsplit("::", 1)[-1]),
                   "%s may wait for %s%s while it holds the lock of %s, which others need" % (fn, what, " (in %s)" % via if via else "", l), sp, trail)
    n = 0
    for b in L.bodies:
        for kind, data, held, sp in L.events[b.id]:
            w = kind == "wait" or kind == "run" and L.wait.get(data[0])
            if w and not held and b.id not in L.quiet:
                n += 1
                ctx.oblige("%s waits without a lock" % strip_generics(b.path), True, span=sp)
    ctx.count("waits", n, 60)
    ctx.count("lock sites", sum(1 for b in L.bodies for e in L.events[b.id] if e[0] == "lock"), 20)
    ctx.count("awaits", L.awaits, 150)
