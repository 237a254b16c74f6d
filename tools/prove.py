import sys, json
sys.path.insert(0, "/verif/tools")
import vlib
vlib.build_vx()
for u in vlib.load_units():
    if len(sys.argv) < 2 or u.name in sys.argv[1:]:
        r = vlib.prove(u)
        print(u.name, r["kind"], r["why"][:3000], "oblig", r["obligations"], "probes", r.get("probes"), "smt", r["smt_ms"], "wall %.1f" % r["wall"])
        for e in r["errors"]:
            print("  FAIL", e["fn"], e["obligation"]); print(e["rendered"])
        for f, t in sorted(r.get("times", []), key=lambda x: -x[1])[:4]:
            print("    ", f, t)
