"""writes MANIFEST.json: a property is claimed once rules/<id>.py exists"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "path-sensitive dominance and provenance analysis over MIR",
 "C02": "provenance (data-flow term) analysis over MIR, field coverage over derived serializers",
 "C03": "provenance (taint) analysis over MIR from cipher to socket",
 "C04": "provenance and typestate analysis over MIR",
 "C05": "lock-scope typestate and sharing analysis over MIR",
 "C06": "path-sensitive guard analysis of the decoder over MIR",
 "C07": "path-sensitive guard and arithmetic-shape analysis of the encoder over MIR",
 "C08": "path-sensitive release (must-call) analysis and key-provenance over MIR",
 "C09": "whole-program panic-site enumeration with guard discharge over MIR",
 "C10": "loop-exit and error-propagation analysis over MIR",
 "C11": "exhaustive dispatch-table analysis over MIR",
 "C12": "provenance analysis of reply channel, address and header over MIR",
 "C13": "typestate analysis of callback registration over MIR",
 "C14": "exhaustive dispatch-table and must-update analysis over MIR",
 "C15": "recursion-measure analysis over MIR",
 "C16": "loop dependency and early-exit analysis over MIR",
 "C17": "spawn/join dataflow analysis over MIR",
 "C18": "type-table analysis of serde-derived code",
 "C19": "guard dominance and must-update analysis over MIR",
 "C20": "guard dominance analysis over MIR",
 "C21": "flag provenance analysis over MIR",
 "C22": "must-call and guard analysis of lifetime bookkeeping over MIR",
 "C23": "release (must-call / must-not-call) analysis over MIR",
 "C24": "typestate and configuration analysis over MIR",
 "C25": "lock-order graph over MIR (guard live ranges, interprocedural)",
 "C26": "lock live ranges against blocking awaits over MIR",
 "C27": "task spawn and loop-exit analysis over MIR",
 "C28": "dispatch-table and key provenance analysis over MIR",
 "C29": "option-to-setting data flow over MIR",
 "C30": "argument provenance (role) analysis over MIR",
}
NA = {
 "C31": "needs the mathematics of the third-party ciphers and MACs, which are not part of this source tree; no dataflow or typing argument over this code decides it (the use made of them is decided under C01-C05 and C28)",
 "C32": "quantifies over wall-clock time and the scheduler; a static argument can only decide that the timers are armed with the right values, which C13, C22 and C27 do",
 "C33": "depends on the interleaving of the child's writes, the operating system's pipe and the server's reads over unbounded time; no source-level argument in reach bounds it (that all output is routed to the collecting task is decided under C24)",
 "C34": "a semantic round trip through serde and third-party codecs whose value domains (floats, maps, byte strings) are runtime quantities; only name collisions and unserializable alternatives are decidable from the source (C18)",
 "C35": "the meaning of a JSONPath expression is computed at run time by a third-party engine from strings in the request",
 "C36": "an invariance over every chunking of a byte stream through index arithmetic on buffer contents; needs symbolic execution or proof rather than dataflow",
}
PENDING = "no check has been built for this property yet"
checks, na = [], []
notes = {}
p = os.path.join(V, "tools", "levels.json")
if os.path.exists(p):
    notes = json.load(open(p))
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "sa", "rules", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
            "technique": "static analysis: " + TECH[i], "level": "other",
            "level_note": notes.get(i, "Decided from the compiler's MIR of /repo's current source for every path the rule covers; "
              "trusts rustc, the extraction driver, the engine in /verif/sa and the named semantics of std, tokio and serde. "
              "Values from outside the crate are symbolic; a rule that cannot finish says so in its evidence (inconclusive) and does not alarm.")})
    else:
        na.append({"property": i, "reason": NA.get(i, PENDING)})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
  "notes": "No hooks: the checks read /repo's source through the compiler and need no instrumentation."},
  open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
