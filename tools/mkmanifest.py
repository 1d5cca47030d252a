#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have a check."""
import json, os
top = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": "runtime monitoring: differential oracle (Python reference of the manual's operators) over random literal terms, on sanitizer/assertion/release builds",
 "C02": "runtime monitoring: sequence/multiset reference model as oracle over random list terms, on sanitizer/assertion/release builds",
 "C03": "runtime monitoring: independent reference checker as oracle over random rules, valid proofs and their mutations",
 "C04": "runtime monitoring: scope-history monitor (reference model of assumption scopes) over random command histories",
 "C05": "runtime monitoring: reference-set oracle over random reference files, proofs and include orders",
 "C06": "runtime monitoring: fault injection at every command position, verdict/exit/echo oracle",
 "C07": "runtime monitoring: desugaring oracle (explicit curried terms) over random attributed applications",
 "C08": "runtime monitoring: rewriting-model oracle over random programs and arguments",
 "C09": "runtime monitoring: typing-model oracle over random signatures and (ill-)typed applications",
 "C10": "runtime monitoring: identity/hash/order trace monitor over random construction and deletion histories, AddressSanitizer",
 "C11": "runtime monitoring: AddressSanitizer, UndefinedBehaviorSanitizer, assertion builds under grammar-based and mutational fuzzing",
 "C12": "runtime monitoring: metamorphic layout/chunking oracle and error-position oracle over whole runs",
 "C13": "runtime monitoring: cross-configuration (build, option, renaming, irrelevant context) trace comparison",
 "C14": "runtime monitoring: include-graph model as oracle over random directory trees",
 "C15": "runtime monitoring: symbol-table model as oracle over random scope histories",
 "C16": "runtime monitoring: SMT-LIB literal-value oracle over random spellings and normalization settings",
 "C17": "runtime monitoring: print/read-back round-trip monitor over random terms",
 "C18": "runtime monitoring: expansion oracle (substitution model) over random definitions, lets and binders",
 "C19": "runtime monitoring: datatype-declaration model as oracle over random datatype blocks",
 "C20": "runtime monitoring: well-formedness oracle over random programs, rules and declarations with single injected faults",
 "C21": "runtime monitoring: known-answer and resource monitor (time, memory, stack, message size) over random heavily shared and deep terms",
}
NOTE = "Held on the executions explored (counts in the evidence file); says nothing about inputs the generator cannot produce. Trusts the Python reference model written from the user manual, the C++ compiler and the sanitizers."
props = [json.loads(l) for l in open(os.path.join(top, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(top, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
                           thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique=T[i], level="exploration", level_note=NOTE))
    else:
        na.append(dict(property=i, reason="check under construction"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: everything is observed at the process boundary and by compiler instrumentation; each check builds the variants it needs from /repo/src into /verif/build.")
json.dump(m, open(os.path.join(top, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
