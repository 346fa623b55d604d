"""p.py PROP [name-substring] : run the proof layer alone, verbosely"""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
prop, only = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else None)
t = time.time()
spec, idxs, res = check.run_proofs(prop, "quick", 8, only)
for i in idxs:
    r = res[i]
    print("%-11s %-70s %s q=%s %.1fs" % (r["status"], r["name"][:70], "%d/%d" % (sum(o["status"] == "proved" for o in r["obligations"]), len(r["obligations"])), r.get("queries"), r.get("wall_s", 0)))
    if r["status"] != "proved":
        print("    ", r["reason"])
        if "-v" in sys.argv and r.get("trace"):
            print(r["trace"])
        for o in r["obligations"]:
            if o["status"] != "proved":
                print("     *", o["status"], o["name"], "|", o["where"], "|", o.get("goal", "")[:300].replace("\n", " "))
                if "-v" in sys.argv:
                    print(o.get("model", "")[:1500])
print("%.1fs" % (time.time() - t))
