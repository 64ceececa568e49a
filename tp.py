"""dev: verify all contracts of some spec modules in parallel"""
import concurrent.futures as cf
import os
import sys
import tempfile
import check
B = float(os.environ.get("B", "300"))
tmp = tempfile.mkdtemp()
jobs = []
for s in sys.argv[1:]:
    s, _, f = s.partition(":")
    jobs += [(s, l) for l, k in check.labels_of(s, None)[0] if f in l]
with cf.ThreadPoolExecutor(8) as p:
    for (s, l), r in zip(jobs, p.map(
            lambda j: check.verify_one(j[0], j[1], B, tmp), jobs)):
        print(s, l, r["status"], r.get("reason") or "", "%.1f" % r["wall"],
              r["paths"], len(r["obligations"]), flush=True)
        for o in r["obligations"]:
            if o["status"] != "proved":
                print("      ", o["status"], o["name"])
                if os.environ.get("V"):
                    for k, v in (o["detail"] or {}).items():
                        print("          ", k, v)
