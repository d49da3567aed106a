"""sens.py PID [N] [filter]: mutants of the analysed functions that a check does not catch (development aid)"""
import os, sys, threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)
from pfsa import sensitivity as S
def go():
    pid = sys.argv[1]; n = int(sys.argv[2]) if len(sys.argv) > 2 else 0
    total, res = S.campaign(pid, os.environ.get("PFSA_ROOT", "/repo"), n, 1, 800)
    c = {}
    for r in res: c[r[3]] = c.get(r[3], 0) + 1
    print(pid, "possible", total, "decided", len(res), c)
    for want in ("quiet", "undecided", "timeout"):
        for r in res:
            if r[3] == want and (len(sys.argv) < 4 or sys.argv[3] in r[0][2]):
                print("  %-9s %s:%d %s | %s %s" % (want, r[0][2].split(".", 1)[1], r[2], r[1], r[4][:110], "%.0fs" % r[5] if r[5] > 20 else ""))
t = threading.Thread(target=go); t.start(); t.join()
