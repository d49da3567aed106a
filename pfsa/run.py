"""python3 -m pfsa.run P04: decide one property on /repo's current sources."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)

TRUSTED = [
    "the abstract interpreter in /verif/pfsa (evaluation rules of the Python subset used by the package)",
    "the summaries of numpy, scipy, astropy and photutils calls in /verif/pfsa/ext.py",
    "real-number semantics of floating point arithmetic (rounding is not modelled)",
    "the reference snippets and rules in /verif/pfsa/rules",
]


def decide(pid, root=os.environ.get("PFSA_ROOT", "/repo"), override=None, tier="quick", total=None):
    from pfsa import clock
    from pfsa.check import Check
    from pfsa.rules import registry
    ck = Check(pid, root, override, tier)
    clock.start(total or clock.TOTAL)
    try:
        registry()[pid](ck)
    except RecursionError:
        ck.add("engine", "analysis completed", "undecided", "recursion limit")
    except Exception as e:
        if os.environ.get("PFSA_DEBUG"):
            raise
        ck.add("engine", "analysis completed", "undecided", "internal error %s: %s" % (type(e).__name__, str(e)[:300]))
    return ck


def known_findings():
    out = []
    p = os.path.join(HERE, "known-findings.json")
    if os.path.exists(p):
        out = json.load(open(p))["findings"]
    return out


def is_known(pid, ob, known):
    for k in known:
        if k["property"] == pid and k["obligation"] == ob.label and all(s in ob.construct for s in k.get("construct", [])) \
                and all(s in ob.detail for s in k.get("detail", [])):
            return k
    return None


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    root = os.environ.get("PFSA_ROOT", "/repo")
    ck = decide(pid, root, tier=tier)
    known = known_findings()
    viol, found = [], []
    for ob in ck.obs:
        if ob.status == "violated":
            k = is_known(pid, ob, known)
            (found if k else viol).append((ob, k))
    extra = {}
    if tier == "thorough":
        from pfsa.sensitivity import sensitivity
        extra = sensitivity(pid, root, seed)
    dis = [o for o in ck.obs if o.status == "discharged"]
    und = [o for o in ck.obs if o.status == "undecided"]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": dict({
            "explanation": "Abstract interpretation (gated value numbering) of /repo's current sources; every obligation below is decided "
                           "for all inputs of the declared kinds by comparing normal forms, effects or references; nothing is executed.",
            "obligations": len(ck.obs), "discharged": len(dis), "undecided": len(und), "violated": len(viol), "known_findings": len(found),
            "functions_analysed": sorted(ck.functions), "function_inlinings": sum(ck.functions.values()),
            "checker_cmd": "cd /verif && python3 -m pfsa.run %s" % pid, "trusted_base": TRUSTED,
            "obligation_list": [{"rule": o.rule, "obligation": o.label, "status": o.status, "functions": len(o.functions),
                                 **({"detail": o.detail[:600]} if o.detail else {}),
                                 **({"construct": o.construct} if o.construct else {})} for o in ck.obs],
        }, **extra),
        "assumptions": ["exact real arithmetic", "library calls behave as summarised in pfsa/ext.py"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d undecided, %d violated, %d known (%.1fs, %d functions)" % (
        pid, len(ck.obs), len(dis), len(und), len(viol), len(found), time.time() - t0, len(ck.functions)))
    for o in und:
        print("  undecided: %s: %s" % (o.label, o.detail[:300]))
    for ob, k in found:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if viol:
        os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
        path = os.path.join(HERE, "out", pid + ".txt")
        with open(path, "w") as f:
            for ob, _ in viol:
                f.write("rule: %s\nobligation: %s\nconstruct: %s\n%s\nfunctions on the analysed path: %s\n\n" % (
                    ob.rule, ob.label, ob.construct, ob.detail, ", ".join(ob.functions)))
            f.write("replay: cd /verif && python3 -m pfsa.run %s\n" % pid)
        for ob, _ in viol[:10]:
            print("  violated: %s at %s: %s" % (ob.label, ob.construct, ob.detail[:400]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


if __name__ == "__main__":
    rc = [0]

    def go():
        for p in sys.argv[1:]:
            rc[0] |= main(p)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0])
