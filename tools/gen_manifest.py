#!/usr/bin/env python3
"""Source of MANIFEST.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 **{p: "online/offline monitors on callback and diagram traces of randomized runs vs independent DP oracle; ASan+UBSan+asserts" for p in
    ["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C13","C14","C15"]},
 "C11": "AddressSanitizer + UBSan + assertions + pool poisoning hook + valgrind memcheck over all workloads",
 "C12": "live-object and interposed-allocator accounting over random call histories",
 "C18": "monitors on values built by different histories and on diagrams under adversarial hash functions",
 "C30": "offline trace checker over the search log with interleaved markers, injected delays; ASan+UBSan+asserts",
 "C31": "exactly-once/order checker over the trace of listener calls; ASan+UBSan+asserts",
 "C28": "DOT trace parser vs walked diagram, process accounting with stand-in viewers",
 "C29": "clock-bracketing monitor on the limit predicate with injected delays",
}
for p in ["C16","C17","C19","C20","C21","C22","C23","C24","C25","C26","C27","C32","C33"]:
    T[p] = "trace checker against a reference model over random operation histories; ASan+UBSan+asserts"
NOTE = ("Runtime monitoring of the real code on generated cases (seeded by VERIF_SEED): holds on everything executed, no claim beyond it. "
        "Trusts the harness oracle (independent of the library), g++ and the sanitizers.")
checks = []
for p in sorted(T):
    checks.append(dict(property=p, quick_cmd=f"python3 check.py {p} quick", thorough_cmd=f"python3 check.py {p} thorough",
                       technique="runtime monitoring: " + T[p], level="exploration", level_note=NOTE))
m = dict(version=1, setup_cmd="python3 check.py --selftest",
         hooks=dict(guard="CODD_VERIFY", enable="-DCODD_VERIFY together with -fsanitize=address (the 'asan' flavour of check.py)",
                    source_commits=["HOOKCOMMIT"]),
         checks=checks, not_applicable=[],
         notes="check.py builds from /repo/src in /verif/build (ignored by git); each quick check takes 0.5-2 minutes on 8 cores.")
import subprocess
h = subprocess.run(["git","-C","/repo","log","--format=%H","--grep=^verification hook"],capture_output=True,text=True).stdout.split()
m["hooks"]["source_commits"] = h
json.dump(m, open(os.path.join(H,"MANIFEST.json"),"w"), indent=1); print(len(checks),"checks")
