"""breaks.py [ID substring]...: every edit below breaks its property; prints the ones its check misses (development aid)"""
import os, sys, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refactorlib
from refactorlib import ALL, job, texts
PH, SG, UT, CO, CR, FI, MO = "photometry.py", "segmentation.py", "utils.py", "petrosian/core.py", "petrosian/correction.py", "modeling/fitting.py", "modeling/models.py"
PROP = {}


def B(id, pids, *edits):
    ALL[id] = [e + ("text",) if len(e) == 3 and not e[1].isidentifier() and "." not in e[1].split("\n")[0].split("(")[0] or len(e) == 3 and ("\n" in e[1] or " " in e[1] or "(" in e[1]) else e for e in edits]
    PROP[id] = pids.split()


for f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
    if f.startswith("breaks_"):
        exec(compile(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), f)).read(), f, "exec"))


def main():
    import multiprocessing as mp
    want = sys.argv[1:]
    ids = [i for i in ALL if not want or any(w in i for w in want)]
    for i in list(ids):
        try:
            texts(i)
        except Exception as e:
            print("BROKEN EDIT", i, str(e)[:150])
            ids.remove(i)
    jobs = [(i, q) for i in ids for q in PROP[i]]
    with mp.Pool(8) as pool:
        for id, pid, v, u, t in pool.imap(job, jobs, chunksize=1):
            print("%s %s %s %s" % ("ok    " if v else "MISSED", id, pid, (v[0][0][:70] + " | " + v[0][1][-60:]) if v else ("undecided %d: %s | %s" % (len(u), u[0][0][:60], u[0][1][:110]) if u else "")))
            sys.stdout.flush()


def run():
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    t.join()


if __name__ == "__main__":
    run()
