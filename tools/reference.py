#!/usr/bin/env python3
"""reference.py FACTS: writes sa/reference.json, the shape (names, signatures, calls) of the code the rules were written against"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sa"))
import names
lines = [l.rstrip("\n").split("\t", 2) for l in open(sys.argv[1])]
a, f = names.snapshot([tuple(x) for x in lines if len(x) == 3])
json.dump({"adts": a, "fns": f}, open(os.path.join(V, "sa", "reference.json"), "w"), indent=0, sort_keys=True)
print(len(a), "types,", len(f), "functions")
