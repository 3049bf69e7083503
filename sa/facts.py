"""Loads the facts written by the mirfacts driver (one JSON object per line)."""
import json
import re

import names


class Body:
    __slots__ = ("id", "path", "name", "kind", "parent", "span", "argc", "locals", "blocks",
                 "trait", "self_ty", "self_adt", "is_async", "derived", "ext", "upvars", "pub",
                 "trait_args", "generics", "_live", "_succ", "_addr")

    def __init__(self, j):
        self.id = j["id"]
        self.path = j["path"]
        self.name = j["name"]
        self.kind = j["kind"]
        self.parent = j["parent"]
        self.span = j["span"]
        self.argc = j["argc"]
        self.locals = j["locals"]
        self.blocks = j["blocks"]
        self.trait = j.get("trait", "")
        self.trait_args = j.get("trait_args", [])
        self.generics = j.get("generics", [])
        self.self_ty = j.get("self", "")
        self.self_adt = j.get("self_adt", "")
        self.is_async = bool(j.get("async"))
        self.derived = bool(j.get("derived"))
        self.ext = bool(j.get("ext"))
        self.upvars = j.get("upvars", [])
        self.pub = bool(j.get("pub"))
        self._live = None
        self._succ = None
        self._addr = None

    def file(self):
        return self.span.rsplit(":", 1)[0]

    def succ(self, b):
        t = self.blocks[b]["t"]
        k = t["t"]
        if k in ("goto", "drop", "assert", "yield"):
            return [t["to"]]
        if k == "switch":
            return [x[1] for x in t["v"]] + [t["else"]]
        if k == "call":
            return [t["to"]] if t["to"] >= 0 else []
        return []

    # ---- liveness -------------------------------------------------------
    def addr_taken(self):
        if self._addr is None:
            s = set()
            for bb in self.blocks:
                for st in bb["s"]:
                    if st[0] == "=" and st[2]["r"] == "ref":
                        p = st[2]["p"]
                        if "*" not in p[1]:
                            s.add(p[0])
            self._addr = s
        return self._addr

    def live_in(self):
        """live-in locals per block (backward may-use); address-taken locals are
        handled separately by reachability from live references"""
        if self._live is not None:
            return self._live
        n = len(self.blocks)
        use = [set() for _ in range(n)]
        deff = [set() for _ in range(n)]

        def uplace(p, u, d):
            l, proj = p
            if l not in d:
                u.add(l)
            for e in proj:
                if isinstance(e, list) and e[1] not in d:
                    u.add(e[1])

        def uop(o, u, d):
            if o["k"] in ("cp", "mv"):
                uplace(o["p"], u, d)

        def dplace(p, u, d):
            l, proj = p
            if not proj:
                d.add(l)
            else:
                uplace(p, u, d)

        for i, bb in enumerate(self.blocks):
            u, d = use[i], deff[i]
            for st in bb["s"]:
                if st[0] == "=":
                    r = st[2]
                    k = r["r"]
                    if k in ("use", "repeat", "cast"):
                        uop(r["o"], u, d)
                    elif k in ("ref", "discr"):
                        uplace(r["p"], u, d)
                    elif k == "bin":
                        uop(r["a"], u, d)
                        uop(r["b"], u, d)
                    elif k == "un":
                        uop(r["a"], u, d)
                    elif k == "agg":
                        for o in r["ops"]:
                            uop(o, u, d)
                    dplace(st[1], u, d)
                elif st[0] == "sd":
                    uplace(st[1], u, d)
                elif st[0] in ("dead", "live"):
                    d.add(st[1])
            t = bb["t"]
            k = t["t"]
            if k == "switch":
                uop(t["d"], u, d)
            elif k == "call":
                uop(t["f"], u, d)
                for a in t["a"]:
                    uop(a, u, d)
                dplace(t["d"], u, d)
            elif k == "assert":
                uop(t["c"], u, d)
                for a in t["mo"]:
                    uop(a, u, d)
            elif k == "yield":
                dplace(t["d"], u, d)
            elif k == "ret":
                if 0 not in d:
                    u.add(0)
            elif k == "drop":
                pass
        live = [set(u) for u in use]
        changed = True
        while changed:
            changed = False
            for i in range(n - 1, -1, -1):
                out = set()
                for s in self.succ(i):
                    out |= live[s]
                new = use[i] | (out - deff[i])
                if new != live[i]:
                    live[i] = new
                    changed = True
        self._live = [frozenset(x) for x in live]
        return self._live


class Adt:
    __slots__ = ("path", "is_enum", "local", "variants", "by_discr", "by_name")

    def __init__(self, j):
        self.path = j["path"]
        self.is_enum = bool(j["enum"])
        self.local = bool(j["local"])
        self.variants = [(v["name"], v["discr"], v["fields"]) for v in j["variants"]]
        self.by_discr = {v["discr"]: v["name"] for v in j["variants"]}
        self.by_name = {v["name"]: v["discr"] for v in j["variants"]}


_GEN = re.compile(r"::<[^<>]*>|<[^<>]*>")


def strip_generics(p):
    """`a::B::<C<D>>::e` -> `a::B::e` (only inherent / free paths)"""
    if p.startswith("<"):
        return p
    out = []
    depth = 0
    i = 0
    while i < len(p):
        c = p[i]
        if p.startswith("::<", i):
            depth += 1
            i += 3
            continue
        if depth and c == "<":
            depth += 1
        elif depth and c == ">":
            if p[i - 1] != "-":
                depth -= 1
            i += 1
            continue
        if not depth:
            out.append(c)
        i += 1
    return "".join(out)


class Facts:
    def __init__(self, path):
        self.raw = {}
        self.bodies = {}
        self.promoted = {}
        self.ext = {}
        self.adts = {}
        self.impls = []
        self.complete = False
        with open(path) as f:
            lines = [tuple(x.split("\t", 2)) for x in f if "\t" in x]
        # items that were only renamed get their old names back
        lines, self.renamed = names.normalise(lines)
        if True:
            for k, i, j in lines:
                if k == "B":
                    self.raw[i] = j
                elif k == "P":
                    self.promoted[i] = j
                elif k == "X":
                    self.ext[i] = j
                elif k == "A":
                    self.adts[i] = Adt(json.loads(j))
                elif k == "I":
                    d = json.loads(j)
                    d["id"] = i
                    self.impls.append(d)
                elif k == "E":
                    self.complete = True
        self._index = None

    def body(self, i):
        b = self.bodies.get(i)
        if b is None:
            if i in self.raw:
                b = Body(json.loads(self.raw[i]))
            elif i in self.ext:
                b = Body(json.loads(self.ext[i]))
            elif i in self.promoted:
                b = Body(json.loads(self.promoted[i]))
            else:
                return None
            self.bodies[i] = b
        return b

    def local_bodies(self, derived=False):
        for i in self.raw:
            b = self.body(i)
            if b.derived and not derived:
                continue
            yield b

    def adt(self, path):
        return self.adts.get(path)

    # ---- lookup of functions by what they are -------------------------------
    def index(self):
        if self._index is None:
            ix = {}
            for b in self.local_bodies(derived=True):
                if b.kind == "fn":
                    ix.setdefault(b.name, []).append(b)
            self._index = ix
        return self._index

    def fns(self, name, self_adt=None, trait=None, path_re=None):
        """functions by item name, and optionally the ADT of the impl (last path
        segment or full path), the trait, or a regex over the path"""
        out = []
        for b in self.index().get(name, []):
            if self_adt is not None and not path_match(b.self_adt, self_adt):
                continue
            if trait is not None and not path_match(b.trait, trait):
                continue
            if path_re is not None and not re.search(path_re, b.path):
                continue
            out.append(b)
        return out

    def coroutine_of(self, b):
        """the body that runs when the async fn `b` is awaited"""
        return self.body(b.id + "::{closure#0}") if b.is_async else b


def path_match(full, want):
    return full == want or full.endswith("::" + want)
