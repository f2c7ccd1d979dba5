#!/usr/bin/env python3
"""Refreshes the fixed entries of known/findings.json from /repo's fix commits."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = os.path.join(V, "known", "findings.json")
k = json.load(open(F)) if os.path.exists(F) else {"findings": []}
def prop(s):
    for key, p in (("record the state id", "C02"), ("undo", "C01"), ("redo", "C01"), ("search trees", "C14"), ("out of date", "C14"), ("leaves no session", "C08"),
                   ("interactive", "C08"), ("contacts of", "C11"), ("closes the face", "C11"), ("close the face", "C11"), ("uses the edges of a node only", "C11"),
                   ("keeps the old", "C14"), ("memory runs out", "C05"), ("leak", "C12"), ("race", "C06"), ("threads", "C06"), ("parallel", "C06"), ("uninitial", "C07"), ("never set", "C07"), ("exit code", "C13"), ("message", "C13"),
                   ("query", "C10"), ("unknown id", "C04"), ("ending the program", "C04")):
        if key in s:
            return p
    return "C09"
l = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
k["fixed"] = ["fixed: property=%s %s %s" % (prop(x), x.split(" ", 1)[0], x.split("fix: ", 1)[1]) for x in l if " fix: " in x]
json.dump(k, open(F, "w"), indent=1)
open(F, "a").write("\n")
