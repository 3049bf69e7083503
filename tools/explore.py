#!/usr/bin/env python3
"""explore.py FACTS NAME [SELF_ADT]: print the events and results of a function (development aid)"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa"))
from facts import *
from absint import *
F = Facts(sys.argv[1])
class R(Rule):
    max_states = 100000
    seen = {}
    rets = set()
    def event(s, e, st, c):
        k = (c.callee.short if c.callee else "?", tuple(show(x) for x in c.terms))
        if k not in s.seen:
            s.seen[k] = c.span
            print("EV", c.span, c.callee.path if c.callee else "?", "|", *k[1])
    def ret(s, e, st, v):
        t = show(v)
        r = "; ".join("%s=%s" % (show(k), x[1]) for k, x in st.ref.items())
        if (t, r) not in s.rets:
            s.rets.add((t, r)); print("RET", t, "WHEN", r)
for b in F.fns(sys.argv[2], self_adt=sys.argv[3] if len(sys.argv) > 3 else None):
    co = F.coroutine_of(b)
    print("=====", co.path)
    R.seen = {}; R.rets = set()
    r = R()
    if len(sys.argv) > 4: r.keep_all_refinements = True
    e = Engine(F, r, co)
    try: e.run()
    except Budget as x: print(x)
    print("states", e.nstates)
