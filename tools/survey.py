#!/usr/bin/env python3
"""survey.py EXE SCENARIO/PROFILE[,..] N [FIRST]: run many seeds and tabulate what happens."""
import sys, os, collections
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simlib
exe, specs, n = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3])
first = int(sys.argv[4]) if len(sys.argv) > 4 else 1
for spec in specs:
    sc, pr = spec.split("/")
    tab, ex, probes, faults = collections.Counter(), {}, collections.Counter(), collections.Counter()
    def one(seed):
        return seed, simlib.run(exe, ["run", sc, pr, str(seed)])
    wall = []
    with ThreadPoolExecutor(int(os.environ.get("PAR","8"))) as px:
        for seed, r in px.map(one, range(first, first + n)):
            wall.append(r["wall"])
            keys = ["%s %s" % (v["prop"], v["class"]) for v in r["viol"]]
            msgs = [v["msg"] for v in r["viol"]]
            if r["crash"]:
                keys.append("CRASH %s @ %s" % (r["crash"]["head"], r["crash"]["site"])); msgs.append("")
            if r["hang"]:
                keys.append("HANG"); msgs.append("")
            if r["err"]:
                keys.append("ERR " + r["err"][:100]); msgs.append(r["err"][-300:])
            if not keys:
                keys = ["ok"]; msgs = [""]
            for k, m in zip(keys, msgs):
                tab[k] += 1
                ex.setdefault(k, []).append((seed, m))
            if r["result"]:
                probes.update(r["result"]["probes"] or {}); faults.update(r["result"]["faults"] or {})
    print("==", spec, "mean wall %.3f max %.2f" % (sum(wall)/len(wall), max(wall)))
    for k, c in tab.most_common():
        print("  %5d %s  seeds %s  %s" % (c, k, [s for s, _ in ex[k][:4]], ex[k][0][1][:170]))
    if os.environ.get("PROBES"):
        print("   probes", dict(probes)); print("   faults", dict(faults))
