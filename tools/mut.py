"""mut.py FILE PID[,PID] OLD NEW: run checks with one in-memory textual edit (development aid)."""
import sys, os, threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)
from pfsa.run import decide


def trial(path, pids, edits, verbose=True):
    src = open("/repo/petrofit/" + path).read()
    for old, new in edits:
        assert src.count(old) >= 1, "not found: %r" % old
        src = src.replace(old, new, 1)
    compile(src, path, "exec")

    out = {}
    for p in pids:
        ck = decide(p, override={"petrofit/" + path: src})
        v = [o for o in ck.obs if o.status == "violated"]
        u = [o for o in ck.obs if o.status == "undecided"]
        out[p] = (v, u)
        if verbose:
            print("%s: %s, %d undecided" % (p, "VIOLATED" if v else "quiet", len(u)))
            for o in v[:3]:
                print("   V", o.label, "|", o.construct, "|", o.detail[:300])
            for o in u[:4]:
                print("   U", o.label, "|", o.construct, "|", o.detail[:300])
    return out


if __name__ == "__main__":
    def go():
        a = sys.argv
        ed = [(a[i].encode().decode("unicode_escape"), a[i + 1].encode().decode("unicode_escape")) for i in range(3, len(a), 2)]
        trial(a[1], a[2].split(","), ed)
    t = threading.Thread(target=go); t.start(); t.join()
