#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current tree.

1. every unit of contracts that carries the property is proved by Verus on text
   extracted from /repo just now;
2. a bounded concrete search with the harness looks for a failing input (and
   stands in, labelled bounded, for the parts DESIGN.md lists as not under proof).
"""
import json, os, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vlib, props_meta
from vlib import VERIF

P = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
TIER = TIER if TIER in ("quick", "thorough") else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
M = props_meta.META[P]


def hx_search(exe, secs, n, seed):
    import subprocess
    p = subprocess.run([exe, "check", P, "--seed", str(seed), "--n", str(n), "--threads", "6", "--secs", str(secs)], capture_output=True, text=True, timeout=secs * 2 + 300)
    try:
        return json.loads(p.stdout.strip().splitlines()[-1])
    except Exception:
        raise RuntimeError(f"harness failed ({p.returncode}): {p.stderr[-2000:]}")


def known():
    """(property, text) of every unrepaired finding; fixed entries suppress nothing"""
    out = []
    for l in open(os.path.join(VERIF, "KNOWN_FINDINGS")):
        if l.startswith("finding:"):
            b = l[len("finding:"):].strip().split(None, 1)
            out.append((b[0].split("=", 1)[1], b[1].strip()))
    return out


def main():
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    n, secs = M["hx"] if TIER == "quick" else (M["hx"][0] * 12, 420)
    hxres, hxerr = [], []

    def harness():
        try:
            exes = [(vlib.hx_bin(False), n)]
            if M.get("targets"):
                exes.append((vlib.hx_bin(True), n))
            for e, k in exes:
                hxres.append((e, hx_search(e, secs, k, SEED)))
        except Exception as e:  # noqa
            hxerr.append(str(e))

    th = threading.Thread(target=harness)
    th.start()
    units = [u for u in vlib.load_units() if P in u.props or any(f.props and P in f.props for f in u.fns)]
    proofs = [None] * len(units)
    perr = []
    if units:
        try:
            vlib.build_vx()
        except Exception as e:
            perr.append(str(e))
        else:
            sem = threading.Semaphore(4)

            def one(i):
                with sem:
                    proofs[i] = vlib.prove(units[i], threads=2)

            ts = [threading.Thread(target=one, args=(i,)) for i in range(len(units))]
            [t.start() for t in ts]
            [t.join() for t in ts]
    th.join()
    if hxerr or perr:
        print("error:", "; ".join(hxerr + perr), file=sys.stderr)
        return 2

    ok = all(p["kind"] == "ok" for p in proofs) and bool(proofs)
    failed = [(p, e) for p in proofs if p["kind"] == "failed" for e in p["errors"] if P in e["props"]]
    undec = [p for p in proofs if p["kind"] == "undecided"]
    # the harness: a violation not in the known-findings file
    kf = [t for q, t in known() if q == P]
    seen_known, bad = set(), None
    for exe, h in hxres:
        for b in h["bad"]:
            k = next((t for t in kf if t.split(" :: ")[0] in json.dumps(b["case"])), None)
            if k:
                seen_known.add(k)
            elif bad is None:
                bad = (exe, b)
    if undec and bad is None and not failed:
        # the proof could not be redone on this tree: deepen the bounded search before answering
        for exe, _ in list(hxres):
            h = hx_search(exe, min(120, secs * 3), n * 4, SEED + 7919)
            hxres.append((exe, h))
            for b in h["bad"]:
                if bad is None:
                    bad = (exe, b)
    for k in kf:
        print(f"KNOWN-FINDING: property={P} {k}")

    level = M["level"]
    if undec or not proofs:
        level = "exploration"
    ev = [h for _, h in hxres]
    cov = dict(
        obligations=sum(p["obligations"] for p in proofs), discharged=sum(p["discharged"] for p in proofs),
        checker_cmd="; ".join(c for p in proofs for c in p["cmds"]) or "none",
        backend="Verus 0.2026.09.13 / Z3 (bundled)", solver_ms=sum(p["smt_ms"] for p in proofs),
        functions_under_contract=sorted({f for p in proofs for f in p["fns"]}),
        obligations_per_function={p["unit"]: p["per_fn"] for p in proofs},
        vacuity_probes_failed_as_required=sum(p.get("probes", 0) for p in proofs if p["kind"] == "ok"),
        proof_status={p["unit"]: p["kind"] + (": " + p["why"] if p["why"] else "") for p in proofs},
        trusted_base=sorted({t for p in proofs for t in p["trusted"]}) + props_meta.TRUSTED,
        not_under_proof=M["bounded"],
        evaluations=sum(h["evaluations"] for h in ev), distinct_nontrivial=sum(h["distinct_nontrivial"] for h in ev),
        rule="bounded concrete search (never counted as proved): " + (ev[0]["rule"] if ev else ""),
        samples=(ev[0]["samples"] if ev else [])[:3],
        skipped=sum(h["skipped"] for h in ev),
    )
    nviol = 0
    out = None
    rp = os.path.join(VERIF, "replay", f"{P}.json")
    obl = [dict(unit=p["unit"], function=e["fn"], obligation=e["obligation"], verifier_output=e["rendered"]) for p, e in failed]
    if bad:
        exe, b = bad
        json.dump(dict(property=P, case=b["case"], what=b["what"], case_seed=b["case_seed"], failed_obligations=obl, replay_cmd=f"{exe} replay {rp}"), open(rp, "w"), indent=1)
        out = f"VIOLATION property={P} replay={rp}"
        nviol = 1 + len(obl)
        print("failing input:", b["what"])
    elif obl:
        json.dump(dict(property=P, failed_obligations=obl, note="no failing input was found by the bounded search", generated=f"{VERIF}/work/{failed[0][0]['unit']}.rs"), open(rp, "w"), indent=1)
        out = f"VIOLATION property={P} replay={rp} no-failing-input-found"
        nviol = len(obl)
    for o in obl:
        print(f"failed obligation: {o['unit']}::{o['function']}: {o['obligation']}")
    for p in undec:
        print(f"undecided (bounded search stands in): unit {p['unit']}: {p['why'][:300]}")
    json.dump(dict(property=P, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=M["assume"] + props_meta.ASSUME, wall_s=round(time.time() - t0, 2), violations=nviol),
              open(os.path.join(VERIF, "evidence", f"{P}.json"), "w"), indent=1)
    if out:
        print(out)
        return 1
    print(f"{P}: held; {cov['discharged']}/{cov['obligations']} obligations discharged in {len(proofs)} unit(s), {cov['evaluations']} bounded cases, level {level}")
    return 0


try:
    sys.exit(main())
except SystemExit:
    raise
except Exception as e:  # noqa
    import traceback
    traceback.print_exc()
    sys.exit(2)
