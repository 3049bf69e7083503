"""Names are not behaviour: before anything is judged, items of the crate that were merely renamed get the name back under which the
rules know them. sa/reference.json (tools/reference.py) holds the shape of the code the rules were written against: types with their
fields, functions with their signature and what they call. A type, field, function or parameter that is missing there, while one of the
same place and shape is new, is taken to be the same one."""
import json
import os
import re

REF = os.path.join(os.path.dirname(os.path.abspath(__file__)), "reference.json")


def header(j):
    d = json.loads(j)
    return d


def ret_of(d, raw):
    """the type a function gives back (for an async one, once awaited)"""
    if d.get("async"):
        c = raw.get(d["id"] + "::{closure#0}")
        if c is not None:
            return "async " + json.loads(c)["locals"][0][0]
    return d["locals"][0][0]


def called(d, raw, inner):
    out = set()
    for i in [d["id"]] + inner.get(d["id"], []):
        out |= set(re.findall(r'"f":\{"fn":"[^"]*","id":"[^"]*","name":"(\w+)"', raw[i]))
        out |= set(re.findall(r'"(\.[a-z_]\w*)"', raw[i]))
    return out


def snapshot(lines):
    """lines: [(kind, id, json text)] -> (types, functions)"""
    raw = {i: j for k, i, j in lines if k == "B"}
    inner = {}
    for i in raw:
        if "::{closure#" in i:
            inner.setdefault(i.split("::{closure#")[0], []).append(i)
    adts, fns = {}, {}
    for k, i, j in lines:
        if k == "A":
            d = json.loads(j)
            if d["local"]:
                adts[d["path"]] = [[v["name"] if d["enum"] else "", [[f[0], f[1]] for f in v["fields"]]] for v in d["variants"]]
        elif k == "B" and '"kind":"fn"' in j[:1200] and "::{closure#" not in i:
            d = json.loads(j)
            if d["kind"] != "fn" or d.get("derived") or "::tests::" in d["path"]:
                continue
            fns[d["path"]] = {"id": d["id"], "name": d["name"], "trait": d.get("trait", ""), "ret": ret_of(d, raw),
                              "args": [x[0] for x in d["locals"][1:d["argc"] + 1]], "params": [x[1] for x in d["locals"][1:d["argc"] + 1]],
                              "calls": sorted(called(d, raw, inner))}
    return adts, fns


_ref = None


def reference():
    global _ref
    if _ref is None:
        _ref = json.load(open(REF)) if os.path.exists(REF) else {"adts": {}, "fns": {}}
    return _ref


def pair(missing, new, same, exact=True):
    """one-to-one matches: only where there is no choice"""
    out = []
    for m in missing:
        c = [n for n in new if same(m, n)]
        if len(c) == 1 and len([x for x in missing if same(x, c[0])]) == 1:
            out.append((m, c[0]))
    return out


def best(missing, new, score):
    """one-to-one matches: each is the other's best"""
    sc = {(m, n): score(m, n) for m in missing for n in new}
    out = []
    for m in missing:
        c = sorted(((sc[(m, n)], n) for n in new if sc[(m, n)] is not None), reverse=True)
        if not c or len(c) > 1 and c[0][0] == c[1][0]:
            continue
        v, n = c[0]
        if all(sc[(x, n)] is None or sc[(x, n)] < v for x in missing if x != m):
            out.append((m, n))
    return out


def place(path):
    """where a function or type lives"""
    depth, cut = 0, -1
    for i, ch in enumerate(path):
        if ch == "<":
            depth += 1
        elif ch == ">" and path[i - 1] != "-":
            depth -= 1
        elif ch == ":" and depth == 0 and path[i - 1:i] == ":":
            cut = i
    return path[:cut - 1] if cut > 0 else ""


def word(s):
    return r"(?<!\w)" + re.escape(s) + r"(?!\w)"


def sub_all(lines, old, new):
    rx = re.compile(word(old))
    return [(k, rx.sub(lambda m: new, i) if old in i else i, rx.sub(lambda m: new, j) if old in j else j) for k, i, j in lines]


def rename_types(lines, log):
    ref = reference()["adts"]
    cur, _ = snapshot([x for x in lines if x[0] == "A"])
    missing = [p for p in ref if p not in cur]
    new = [p for p in cur if p not in ref]
    if not missing or not new:
        return lines
    # other types in it may have been renamed as well
    any_of = re.compile("|".join(word(x) for x in sorted(missing + new, key=len, reverse=True)))

    def shape(vs):
        return [[v[0], sorted(any_of.sub("#", t) for _, t in v[1])] for v in vs]

    def labels(vs):
        return {(v[0], n) for v in vs for n, _ in v[1]}

    def score(m, n):
        x, y = ref[m], cur[n]
        if place(m) != place(n) or len(x) != len(y):
            return None
        a, b = labels(x), labels(y)
        v = len(a & b) / len(a | b) if a or b else 0
        return 1 + v if shape(x) == shape(y) else v if v >= 0.75 else None
    for m, n in best(missing, new, score):
        log.append("type %s is %s" % (n, m))
        lines = sub_all(lines, n, m)
    return lines


def rename_fields(lines, log):
    ref = reference()["adts"]
    cur, _ = snapshot([x for x in lines if x[0] == "A"])
    todo = []
    for p, vs in cur.items():
        if p not in ref or "cli::opts" in p:
            continue
        for v in vs:
            r = [x for x in ref[p] if x[0] == v[0]]
            if not r:
                continue
            have, want = {n for n, _ in v[1]}, {n for n, _ in r[0][1]}
            gone = [(n, t) for n, t in r[0][1] if n not in have]
            new = [(n, t) for n, t in v[1] if n not in want]
            for t in {t for _, t in gone}:
                a, b = [n for n, x in gone if x == t], [n for n, x in new if x == t]
                if len(a) == len(b):
                    todo += [(p, x, y) for x, y in zip(a, b)]
    if not todo:
        return lines
    users = {}
    for p, vs in cur.items():
        for v in vs:
            for n, _ in v[1]:
                users.setdefault(n, set()).add(p)
    to = {}
    for p, canon, now in todo:
        to[(p, now)] = canon
    for p, canon, now in todo:
        # those where the same name now stands for something else
        others = {o for o in users.get(now, set()) - {p} if to.get((o, now)) != canon}
        log.append("field %s of %s is %s" % (now, p, canon))
        rx = re.compile(r'("adt":"%s","variant":"[^"]*"[^{}]*?"names":\[(?:"[^"\]]*",)*?)"%s"' % (re.escape(p), re.escape(now)))
        out = []
        for k, i, j in lines:
            if k in "BP" and '"%s"' % now in j or k in "BP" and '".%s"' % now in j:
                j = rx.sub(lambda m: m.group(1) + '"%s"' % canon, j)
                if '".%s"' % now in j and (not others or p in j and not any(o in j for o in others)):
                    j = j.replace('".%s"' % now, '".%s"' % canon)
            elif k == "A" and i == p or k == "A" and '"path":"%s"' % p in j[:200]:
                j = j.replace('["%s",' % now, '["%s",' % canon)
            out.append((k, i, j))
        lines = out
    return lines


def rename_functions(lines, log):
    ref = reference()["fns"]
    while True:
        _, cur = snapshot(lines)
        missing = [p for p in ref if p not in cur and not ref[p]["trait"]]
        new = [p for p in cur if p not in ref and not cur[p]["trait"]]
        if not missing or not new:
            return lines

        def score(m, n):
            x, y = ref[m], cur[n]
            if place(m) != place(n) or sorted(x["args"]) != sorted(y["args"]) or x["ret"] != y["ret"]:
                return None
            a, b = set(x["calls"]), set(y["calls"])
            # a function that calls itself was renamed along with the call
            a, b = a - {x["name"]}, b - {y["name"]}
            v = len(a & b) / len(a | b) if a or b else 1
            return v if v >= 0.5 else None
        found = best(missing, new, score)
        if not found:
            return lines
        for m, n in found:
            now, canon = cur[n]["name"], ref[m]["name"]
            i0 = cur[n]["id"]
            i1 = i0[:len(i0) - len(now)] + canon if i0.endswith("::" + now) else i0
            if i1 == i0:
                continue
            log.append("function %s is %s" % (n, canon))
            lines = sub_all(lines, i0, i1)
            lines = sub_all(lines, n, m)
            rx = re.compile(r'("fn":"[^"]*?)%s(","id":"%s","name":")%s"' % (re.escape(now), re.escape(i1), re.escape(now)))
            ry = re.compile(r'("id":"%s","name":")%s"' % (re.escape(i1), re.escape(now)))
            rz = re.compile(r'("id":"%s","path":"[^"]*","name":")%s"' % (re.escape(i1), re.escape(now)))
            out = []
            for k, i, j in lines:
                if i1 in j:
                    j = rx.sub(lambda x: x.group(1) + canon + x.group(2) + canon + '"', j)
                    j = ry.sub(lambda x: x.group(1) + canon + '"', j)
                    j = rz.sub(lambda x: x.group(1) + canon + '"', j)
                out.append((k, i, j))
            lines = out


def rename_params(lines, log):
    ref = reference()["fns"]
    _, cur = snapshot(lines)
    todo = {}
    for p, y in cur.items():
        x = ref.get(p)
        if x is None or x["params"] == y["params"] or x["args"] == y["args"] and not any(y["params"]):
            continue
        gone = [(n, t) for n, t in zip(x["params"], x["args"]) if n and n not in y["params"]]
        new = [(n, t) for n, t in zip(y["params"], y["args"]) if n and n not in x["params"]]
        for t in {t for _, t in gone}:
            a, b = [n for n, u in gone if u == t], [n for n, u in new if u == t]
            if len(a) == len(b):
                todo.setdefault(y["id"], []).extend(zip(b, a))
    if not todo:
        return lines
    out = []
    for k, i, j in lines:
        base = i.split("::{closure#")[0].split("#promoted")[0] if k in "BP" else None
        if base in todo:
            d = json.loads(j)
            m = dict(todo[base])
            if i == base:
                log.append("parameters of %s: %s" % (i, ", ".join("%s is %s" % x for x in todo[base])))
                for n in range(1, d["argc"] + 1):
                    if d["locals"][n][1] in m:
                        d["locals"][n][1] = m[d["locals"][n][1]]
            d["upvars"] = [[m.get(u[0], u[0]), u[1]] for u in d.get("upvars", [])]
            j = json.dumps(d, separators=(",", ":"))
        out.append((k, i, j))
    return out


def normalise(lines):
    log = []
    if not reference()["fns"]:
        return lines, log
    for step in (rename_types, rename_fields, rename_functions, rename_params):
        lines = step(lines, log)
    return lines, log
