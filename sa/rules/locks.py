"""Locks: which are held where, in which order they are taken, and what is waited for meanwhile.

A flow analysis over the compiler's MIR.  In every body, the locals that own a
guard are followed through moves, drops and storage ends (may-held, joined over
paths).  What a future does is taken to happen where it is polled.  Every body
gets a summary (locks taken, order edges, waits), completed over the call graph;
locks are identified by what the mutex protects and the field it lives in, and
locks reached through parameters are named at each call."""
import re
from collections import namedtuple

from common import *

GUARD = re.compile(r"(?<![\w:&])(?<!&mut )(?<!&'a )(?:\w+::)*\w*(?:Guard|Permit)\b")
NOT_OWNER = ("&", "impl ", "std::task::Poll<", "std::pin::Pin<", "{", "fn(", "*", "dyn ")
SYNC = re.compile(r"(Mutex|RwLock|Semaphore)\b")
TAKE = {"lock", "lock_owned", "write", "read", "blocking_lock", "acquire", "acquire_owned", "blocking_read", "blocking_write", "upgradable_read", "write_owned", "read_owned"}
TRY = {"try_lock", "try_read", "try_write", "try_acquire", "try_lock_owned"}
FUT = re.compile(r"Future|\{async|\{closure|Coroutine|JoinHandle|time::(delay::)?Delay|oneshot::Receiver|MaybeDone|PollFn|Timeout|process::Child\b|::util::|WaitWithOutput|futures::|futures_util::")
# futures that end by themselves
NOWAIT = {"yield_now", "ready", "lazy", "ok", "err"}
# futures that only run the futures they are given
WRAP = {"into_future", "boxed", "boxed_local", "pin", "new_unchecked", "new", "join", "join3", "join4", "join5", "join_all", "try_join", "try_join3", "try_join_all", "maybe_done", "map",
        "map_ok", "map_err", "then", "and_then", "or_else", "fuse", "inspect", "inspect_err", "inspect_ok", "poll_fn", "select", "select_all", "shared", "unwrap_or_else", "flatten", "into",
        "from", "as_mut", "get_mut", "deref_mut", "deref", "take_output", "poll_unpin", "into_stream", "catch_unwind", "instrument", "map_unchecked_mut", "get_unchecked_mut", "pin_mut",
        "clone", "as_ref", "err_into", "ok_into", "unit_error", "never_error", "left_future", "right_future", "into_boxed", "set", "Box"}
# calls that only make the task or thread itself wait
SYNCWAIT = re.compile(r"^(std::thread::sleep|std::thread::park|std::thread::JoinHandle.*::join|std::sync::mpsc::(Sync)?(Receiver|Sender).*::(recv|recv_timeout)|std::sync::mpsc::SyncSender.*::send|"
                      r"std::process::(Child.*::wait|Child.*::wait_with_output|Command.*::(status|output))|std::sync::Condvar.*::wait\w*|std::sync::Barrier.*::wait|.*::block_on|.*::blocking_recv|.*::blocking_send|"
                      r"std::net::.*::(connect|accept|recv|recv_from|send|send_to|peek))$")
# futures that are themselves what is waited for
OUTSIDE = re.compile(r"^(&mut )?(tokio|std)::(process|sync|net|time|task|signal)::[^{]*$")
SPAWN = {"spawn", "spawn_local", "spawn_blocking", "spawn_obj"}

Ident = namedtuple("Ident", "what field")       # field: name | ("p", fn, index) | None


def owns_guard(ty):
    if ty.startswith(NOT_OWNER):
        return False
    m = GUARD.search(ty)
    if not m:
        return False
    return not re.search(r"(Future|dyn |fn\()", ty[:m.start()])


def content(ty):
    m = re.search(r"(?:Mutex|RwLock)<", ty)
    if not m:
        return "semaphore" if "Semaphore" in ty else None
    d, i = 1, m.end()
    while i < len(ty) and d:
        d += ty[i] == "<"
        d -= ty[i] == ">" and ty[i - 1] != "-"
        i += 1
    return re.sub(r"(\w+::)+", "", ty[m.end():i - 1])


class Locks:
    def __init__(self, f):
        self.f = f
        self.bodies = [b for b in f.local_bodies(derived=True) if not in_tests(parent_fn(f, b) or b)]
        self.ids = {b.id for b in self.bodies}
        self.makers = {}        # closure / coroutine body -> (creating body, operands)
        self.defs = {}
        self._futs = {}
        self.events = {}
        self.nlocks = set()
        self.awaits = 0
        impls = {}
        for b in self.bodies:
            if b.trait and b.kind == "fn":
                impls.setdefault((strip_generics(b.trait), b.name), []).append(b.id)
        self.impls = impls
        for b in self.bodies:
            self.defs[b.id] = self.index(b)
        self.callsites = {}
        for b in self.bodies:
            self.events[b.id] = self.flow(b)
        self.summaries()

    # -------------------------------------------------------------- definitions
    def index(self, b):
        d = {}
        for i, bb in enumerate(b.blocks):
            for s in bb["s"]:
                if s[0] == "=":
                    if "*" not in s[1][1]:
                        d.setdefault(s[1][0], []).append(("s", s[1][1], s[2]))
                    if s[2]["r"] == "agg" and s[2]["kind"] in ("closure", "coroutine", "coroutine_closure"):
                        self.makers[s[2]["id"]] = (b, s[2]["ops"])
            t = bb["t"]
            if t["t"] == "call" and "*" not in t["d"][1]:
                d.setdefault(t["d"][0], []).append(("c", t["d"][1], t))
        return d

    @staticmethod
    def rec(t):
        return t["f"]["f"] if t["f"]["k"] == "fn" else None

    def targets(self, cj):
        """local bodies a call may enter"""
        r = cj.get("r", cj["id"])
        if r in self.ids:
            return [r]
        if cj.get("trait") and not cj["trait"].startswith(("std::", "serde", "alloc::", "core::")):
            return list(self.impls.get((strip_generics(cj["trait"]), cj["name"]), []))
        if cj.get("from_id") in self.ids:
            return [cj["from_id"]]
        return []

    # -------------------------------------------------------------- which lock
    def ident(self, b, place, ty=None, depth=0, seen=None):
        """identity of the mutex a place leads to"""
        seen = set() if seen is None else seen
        loc, pr = place
        ty = ty or content(b.locals[loc][0])
        names = [p[1:] for p in pr if isinstance(p, str) and p.startswith(".") and not p[1:].isdigit()]
        if names:
            return {Ident(ty, names[-1])}
        if (b.id, loc) in seen or depth > 40:
            return set()
        seen.add((b.id, loc))
        # what a closure captured
        if loc == 1 and b.kind != "fn":
            idx = [int(p[1:]) for p in pr if isinstance(p, str) and p.startswith(".") and p[1:].isdigit()]
            mk_ = self.makers.get(b.id)
            if idx and mk_ and idx[0] < len(mk_[1]):
                o = mk_[1][idx[0]]
                if o["k"] in ("mv", "cp"):
                    return self.ident(mk_[0], o["p"], ty, depth + 1, seen)
            return {Ident(ty, None)}
        if b.kind == "fn" and 1 <= loc <= b.argc:
            return {Ident(ty, ("p", b.id, loc - 1))}
        out = set()
        for k, dp, d in self.defs[b.id].get(loc, ()):
            if k == "s":
                if d["r"] in ("use", "cast") and d["o"]["k"] in ("mv", "cp"):
                    out |= self.ident(b, d["o"]["p"], ty, depth + 1, seen)
                elif d["r"] == "ref":
                    out |= self.ident(b, d["p"], ty, depth + 1, seen)
                elif d["r"] == "agg":
                    for o in d["ops"]:
                        if o["k"] in ("mv", "cp") and SYNC.search(b.locals[o["p"][0]][0]):
                            out |= self.ident(b, o["p"], ty, depth + 1, seen)
            else:
                for o in d["a"][:1]:
                    if o["k"] in ("mv", "cp") and SYNC.search(b.locals[o["p"][0]][0]):
                        out |= self.ident(b, o["p"], ty, depth + 1, seen)
                    elif o["k"] in ("mv", "cp") and d["f"]["k"] == "fn":
                        # an accessor of something that holds the lock
                        for t in self.targets(d["f"]["f"]):
                            out |= self.accessor(t, ty, depth, seen)
        return out or {Ident(ty, None)}

    def accessor(self, t, ty, depth, seen):
        h = self.f.body(t)
        return self.ident(h, (0, []), ty, depth + 1, seen) if h is not None else set()

    def lock_of(self, b, t):
        o = t["a"][0] if t["a"] else None
        if o is None or o["k"] not in ("mv", "cp"):
            return frozenset({Ident(None, None)})
        return frozenset(self.ident(b, o["p"]))

    def is_lock(self, cj, names=TAKE):
        return cj is not None and cj["name"] in names and SYNC.search(cj.get("self_adt") or cj["fn"].rsplit("::", 1)[0]) and not cj.get("r", cj["id"]) in self.ids \
            and not cj.get("trait", "").startswith("std::fmt")

    # -------------------------------------------------------------- what a future runs
    def futs(self, b, loc, depth=0, seen=None):
        """what polling the value in a local may run: ('lock', idents) ('run', body, call, body) ('wait', what)"""
        key = (b.id, loc)
        if key in self._futs:
            return self._futs[key]
        top = seen is None
        seen = set() if top else seen
        if key in seen or depth > 60:
            return set()
        seen.add(key)
        out = set()
        if loc == 1 and b.kind != "fn":
            return out
        ds = self.defs[b.id].get(loc, ())
        if not ds and b.kind == "fn" and 1 <= loc <= b.argc and futlike(b.locals[loc][0]):
            out.add(("given", loc))       # counted where it is given
        for k, dp, d in ds:
            if k == "s":
                for o in self.operands(d):
                    out |= self.futs_place(b, o, depth, seen)
                if d["r"] == "agg" and d["kind"] in ("closure", "coroutine", "coroutine_closure"):
                    out.add(("run", d["id"], None, b.id))
            else:
                out |= self.futs_call(b, d, depth, seen)
        if top:
            self._futs[key] = out
        return out

    @staticmethod
    def operands(d):
        if d["r"] in ("use", "cast", "repeat"):
            return [d["o"]["p"]] if d["o"]["k"] in ("mv", "cp") else []
        if d["r"] == "ref":
            return [d["p"]]
        if d["r"] == "agg":
            return [o["p"] for o in d["ops"] if o["k"] in ("mv", "cp")]
        return []

    def futs_place(self, b, p, depth, seen):
        loc, pr = p
        if loc == 1 and b.kind != "fn":
            idx = [int(x[1:]) for x in pr if isinstance(x, str) and x.startswith(".") and x[1:].isdigit()]
            mk_ = self.makers.get(b.id)
            if idx and mk_ and idx[0] < len(mk_[1]):
                o = mk_[1][idx[0]]
                if o["k"] in ("mv", "cp"):
                    return self.futs_place(mk_[0], o["p"], depth + 1, seen)
            return set()
        ty = b.locals[loc][0]
        if loc in range(1, b.argc + 1) and b.kind == "fn" and not futlike(ty):
            return set()
        return self.futs(b, loc, depth + 1, seen)

    def futs_call(self, b, t, depth, seen):
        cj = self.rec(t)
        out = set()
        if cj is None:
            return out
        if cj["name"] == "poll" and cj.get("trait", "").endswith("Future"):
            return out      # what a future gave is no future of ours
        if self.is_lock(cj):
            return {("lock", self.lock_of(b, t))}
        tg = self.targets(cj)
        if tg:
            for i in tg:
                h = self.f.body(i)
                if h.is_async:
                    out.add(("run", self.f.coroutine_of(h).id, (b.id, id(t), i), b.id))
                    self.callsites[(b.id, id(t), i)] = (b, t, h)
                elif FUT.search(b.locals[t["d"][0]][0]):
                    out |= {x for x in self.futs(h, 0, depth + 1, set(seen)) if x[0] != "given"}
            for o in t["a"]:
                if o["k"] in ("mv", "cp") and FUT.search(b.locals[o["p"][0]][0]):
                    out |= self.futs_place(b, o["p"], depth, seen)
            return out
        ty = b.locals[t["d"][0]][0]
        if cj["name"] in NOWAIT and "future" in cj["fn"] or cj["name"] == "yield_now":
            return out
        if cj["name"] in SPAWN:
            return {("wait", "JoinHandle")}
        file_only = any("tokio::fs::" in a for a in cj.get("args", ())) or "tokio::fs" in cj["fn"] or "tokio::fs" in cj.get("rp", "")
        wrap = cj["name"] in WRAP
        for o in t["a"]:
            if o["k"] in ("mv", "cp"):
                aty = b.locals[o["p"][0]][0]
                if wrap or FUT.search(aty):
                    out |= self.futs_place(b, o["p"], depth, seen)
        if FUT.search(ty) and file_only:
            out.add(("fs", cj["name"]))
        elif not wrap and FUT.search(ty):
            out.add(("wait", resource(cj)))
        return out

    # -------------------------------------------------------------- held locks
    def guard_locks(self, b, loc, depth=0, seen=None):
        """locks a guard in a local may stand for"""
        seen = set() if seen is None else seen
        if (b.id, loc) in seen or depth > 40:
            return set()
        seen.add((b.id, loc))
        out = set()
        if b.kind == "fn" and 1 <= loc <= b.argc:
            return {Ident(content(re.sub(r"\w*Guard<'?\w*,? ?", "Mutex<", b.locals[loc][0])), None)} if owns_guard(b.locals[loc][0]) else set()
        if loc == 1 and b.kind != "fn":
            return set()
        for k, dp, d in self.defs[b.id].get(loc, ()):
            if k == "s":
                for p in self.operands(d):
                    if p[0] == 1 and b.kind != "fn":
                        idx = [int(x[1:]) for x in p[1] if isinstance(x, str) and x.startswith(".") and x[1:].isdigit()]
                        mk_ = self.makers.get(b.id)
                        if idx and mk_ and idx[0] < len(mk_[1]) and mk_[1][idx[0]]["k"] in ("mv", "cp"):
                            out |= self.guard_locks(mk_[0], mk_[1][idx[0]]["p"][0], depth + 1, seen)
                    else:
                        out |= self.guard_locks(b, p[0], depth + 1, seen)
            else:
                cj = self.rec(d)
                if cj is None:
                    continue
                if self.is_lock(cj) or self.is_lock(cj, TRY):
                    out |= self.lock_of(b, d)
                    continue
                tg = self.targets(cj)
                if tg:
                    for i in tg:
                        h = self.f.body(i)
                        r = self.f.coroutine_of(h)
                        if GUARD.search(r.locals[0][0]):
                            out |= self.instantiate(self.guard_locks(r, 0, depth + 1, set(seen)), b, d, h)
                    continue
                for o in d["a"]:
                    if o["k"] in ("mv", "cp") and GUARD.search(b.locals[o["p"][0]][0]):
                        out |= self.guard_locks(b, o["p"][0], depth + 1, seen)
        return out

    def instantiate(self, idents, b, t, h):
        """names of a callee's locks at a call of it"""
        out = set()
        for i in idents:
            if isinstance(i.field, tuple) and i.field[1] == h.id:
                n = i.field[2]
                o = t["a"][n] if n < len(t["a"]) else None
                if o is not None and o["k"] in ("mv", "cp"):
                    out |= self.ident(b, o["p"], None if content(b.locals[o["p"][0]][0]) else i.what)
                else:
                    out.add(Ident(i.what, None))
            else:
                out.add(i)
        return frozenset(out)

    def flow(self, b):
        """the events of a body with the locks held at each"""
        n = len(b.blocks)
        owners = {i for i, l in enumerate(b.locals) if owns_guard(l[0])}
        carriers = set()
        entry = [None] * n
        start = frozenset(i for i in range(1, b.argc + 1) if i in owners and b.kind == "fn")
        names = {}

        def idents(loc):
            if loc not in names:
                names[loc] = frozenset(self.guard_locks(b, loc))
            return names[loc]
        events = {}
        entry[0] = start
        todo = [0]
        while todo:
            i = todo.pop()
            held = set(entry[i])

            def move(o, dest):
                """a moved operand gives up what it owns"""
                if o["k"] != "mv":
                    return
                loc, pr = o["p"]
                if loc in held and (not pr or dest in owners):
                    held.discard(loc)
                    return True

            for s in b.blocks[i]["s"]:
                if s[0] == "=":
                    dl, dp = s[1]
                    rv = s[2]
                    got = False
                    ops = rv.get("ops") if rv["r"] == "agg" else [rv["o"]] if rv["r"] in ("use", "cast") else []
                    for o in ops:
                        if move(o, dl):
                            got = True
                        elif o["k"] == "mv" and o["p"][1] and dl in owners:
                            got = True
                    if not dp:
                        held.discard(dl)
                    if dl in owners and (got or any(o["k"] in ("mv", "cp") for o in ops)):
                        held.add(dl)
                    elif got:
                        held.add(dl)            # a closure or struct that took the guard
                        names.setdefault(dl, frozenset().union(*[idents(o["p"][0]) for o in ops if o["k"] == "mv"]))
                elif s[0] == "dead":
                    held.discard(s[1])
            t = b.blocks[i]["t"]
            k = t["t"]
            succ = b.succ(i)
            if k == "drop":
                if not t["p"][1]:
                    held.discard(t["p"][0])
            elif k == "call":
                cj = self.rec(t)
                got = [o["p"][0] for o in t["a"] if move(o, t["d"][0])]
                ev = events.setdefault(i, [t, set()])
                ev[1] |= {(l, x) for l in held | set(got) for x in (idents(l) or {Ident(None, None)})} if not (cj and cj["name"] == "drop") else {
                    (l, x) for l in held for x in idents(l)}
                if not t["d"][1]:
                    held.discard(t["d"][0])
                if t["d"][0] in owners:
                    held.add(t["d"][0])
                elif got and FUT.search(b.locals[t["d"][0]][0]):
                    held.add(t["d"][0])
                    names.setdefault(t["d"][0], frozenset().union(*[idents(l) for l in got]))
            new = frozenset(held)
            for x in succ:
                if entry[x] is None:
                    entry[x] = new
                    todo.append(x)
                elif not new <= entry[x]:
                    entry[x] = entry[x] | new
                    todo.append(x)
        out = []
        for i, (t, held) in sorted(events.items()):
            out += self.effects(b, t, frozenset(x for _, x in held))
        return out

    def effects(self, b, t, held):
        """[(kind, data, held, span)] of one call"""
        cj = self.rec(t)
        sp = t.get("sp", b.span)
        out = []
        if cj is None:
            return out
        name = cj["name"]
        if (name == "poll" and cj.get("trait", "").endswith("Future")) or name in ("poll_unpin", "try_poll_unpin"):
            self.awaits += 1
            o = t["a"][0]
            r = cj.get("r")
            if r in self.ids:
                out.append(("run", (r, None), held, sp))
            fs = self.futs_place(b, o["p"], 0, None) if o["k"] in ("mv", "cp") else set()
            ty = " ".join(cj.get("args", ())[:1])
            if name == "poll" and OUTSIDE.match(ty):
                fs = {("wait", short_type(ty))}
            for x in fs:
                if x[0] == "lock":
                    out.append(("lock", x[1], held, sp))
                elif x[0] == "run":
                    out.append(("run", (x[1], x[2]), held, sp))
                elif x[0] == "wait":
                    out.append(("wait", x[1], held, sp))
            if not fs and r not in self.ids and "tokio::fs::" not in " ".join(cj.get("args", ())):
                out.append(("wait", short_type(" ".join(cj.get("args", ())[:1])), held, sp))
            return out
        if self.is_lock(cj):
            self.nlocks |= self.lock_of(b, t)
            if not FUT.search(b.locals[t["d"][0]][0]):
                out.append(("lock", self.lock_of(b, t), held, sp))
            return out
        if self.is_lock(cj, TRY):
            return out
        if SYNCWAIT.match(strip_generics(cj["fn"])) and "::" in cj["fn"]:
            out.append(("wait", resource(cj), held, sp))
        spawn = name in SPAWN
        tg = self.targets(cj)
        for i in tg:
            h = self.f.body(i)
            if not h.is_async:
                self.callsites[(b.id, id(t), i)] = (b, t, h)
                out.append(("run", (i, (b.id, id(t), i)), held, sp))
        for o in t["a"]:
            if o["k"] in ("mv", "cp"):
                ty = b.locals[o["p"][0]][0]
                if "{closure" in ty or spawn:
                    for x in self.futs_place(b, o["p"], 0, None):
                        if x[0] == "run":
                            h = self.f.body(x[1])
                            if spawn:
                                out.append(("spawn", (x[1], x[2]), frozenset(), sp))
                            elif h is not None and h.kind == "closure":
                                out.append(("run", (x[1], x[2]), held, sp))
            elif o["k"] == "fn":
                for i in self.targets(o["f"]):
                    if not self.f.body(i).is_async:
                        out.append(("run", (i, None), held, sp))
        return out

    # -------------------------------------------------------------- summaries
    def never_pends(self, b):
        """a poll_fn closure all of whose results are Ready"""
        if b.kind != "closure" or not b.locals[0][0].startswith("std::task::Poll<"):
            return False
        todo, seen = [0], set()
        while todo:
            loc = todo.pop()
            if loc in seen:
                continue
            seen.add(loc)
            ds = self.defs[b.id].get(loc, ())
            if not ds:
                return False
            for k, dp, d in ds:
                if k == "c":
                    return False
                if d["r"] == "agg" and d.get("variant") == "Ready" or dp:
                    continue
                if d["r"] == "use" and d["o"]["k"] in ("mv", "cp") and not d["o"]["p"][1]:
                    todo.append(d["o"]["p"][0])
                    continue
                return False
        return True

    def inst_all(self, xs, site):
        if site is None or site not in self.callsites:
            return xs
        b, t, h = self.callsites[site]
        return self.instantiate(xs, b, t, h)

    def summaries(self):
        acq = {b.id: set() for b in self.bodies}
        wait = {b.id: set() for b in self.bodies}
        edges = {b.id: set() for b in self.bodies}
        quiet = {b.id for b in self.bodies if self.never_pends(b)}
        changed = True
        while changed:
            changed = False
            for b in self.bodies:
                A, W, E = acq[b.id], wait[b.id], edges[b.id]
                n = len(A) + len(W) + len(E)
                for kind, data, held, sp in self.events[b.id]:
                    if kind == "lock":
                        A |= data
                        E |= {(h, l, owner_path(self.f, b), sp) for h in held for l in data}
                    elif kind == "wait":
                        if b.id not in quiet:
                            W.add((data, ""))
                    elif kind in ("run", "spawn"):
                        i, site = data
                        if i not in acq:
                            continue
                        a = self.inst_all(frozenset(acq[i]), site)
                        for h, l, w, s in list(edges[i]):
                            for h2 in self.inst_all(frozenset({h}), site):
                                for l2 in self.inst_all(frozenset({l}), site):
                                    E.add((h2, l2, w, s))
                        if kind == "run":
                            A |= a
                            E |= {(h, l, owner_path(self.f, b), sp) for h in held for l in a}
                            if b.id not in quiet:
                                W |= {(w, v or owner_path(self.f, self.f.body(i))) for w, v in wait[i]}
                if len(A) + len(W) + len(E) != n:
                    changed = True
        self.acq, self.wait, self.edges, self.quiet = acq, wait, edges, quiet

    def order(self):
        """the order edges between named locks: {(a, b): {(function, span)}}"""
        out = {}
        for i, es in self.edges.items():
            for h, l, w, sp in es:
                if isinstance(h.field, tuple) or isinstance(l.field, tuple):
                    continue
                out.setdefault((name(h), name(l)), set()).add((w, sp))
        return out

    def waits_held(self):
        """[(function, locks, what is waited for, through, span)]"""
        out = set()
        for b in self.bodies:
            for kind, data, held, sp in self.events[b.id]:
                if not held:
                    continue
                hn = frozenset(name(h) for h in held)
                if kind == "wait" and b.id not in self.quiet:
                    out.add((owner_path(self.f, b), hn, data, "", sp))
                elif kind == "run" and data[0] in self.wait and b.id not in self.quiet:
                    for w, v in self.wait[data[0]]:
                        out.add((owner_path(self.f, b), hn, w, v or owner_path(self.f, self.f.body(data[0])), sp))
        return out

def futlike(ty):
    return FUT.search(ty) or re.match(r"^[A-Z]\w*$", ty)


def short_type(t):
    t = re.sub(r"'\w+ |<'_>", "", t).replace("<'_, ", "<")
    return re.sub(r"(\w+::)+", "", t)


def resource(cj):
    """what a foreign call waits for"""
    if cj.get("trait") and cj.get("args"):
        m = re.search(r"\b(ChildStd\w+|TcpStream|UdpSocket)\b", cj["args"][0])
        if m:
            return m.group(1)
        return strip_generics(short_type(cj["args"][0].lstrip("&").replace("mut ", "")))
    if cj.get("self_adt"):
        return strip_generics(cj["self_adt"])
    return strip_generics(cj["fn"])


def in_tests(b):
    return "::tests::" in b.path


def name(i):
    if i.field is None or isinstance(i.field, tuple):
        return "%s" % (i.what or "?")
    return "%s:%s" % (i.field, i.what or "?")


def locks_of(ctx):
    if getattr(ctx.f, "_locks", None) is None:
        ctx.f._locks = Locks(ctx.f)
    return ctx.f._locks
