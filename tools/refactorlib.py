"""Corpus of behaviour-preserving edits: every check has to stay quiet on each of them (development aid)."""
import ast
import os
import sys
import textwrap
import threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
REPO = os.environ.get("PFSA_ROOT", "/repo") + "/petrofit/"
ALL = {}


def find(tree, qual):
    setter = qual.endswith(":setter")
    parts = qual.split(":")[0].split(".")

    def go(body, parts):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == parts[0]:
                if len(parts) == 1:
                    isset = any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in n.decorator_list)
                    if isset == setter:
                        return n
                else:
                    r = go(n.body, parts[1:])
                    if r is not None:
                        return r
    return go(tree.body, parts)


def replace(text, qual, new, keepdec=True):
    n = find(ast.parse(text), qual)
    assert n is not None, qual
    lines = text.split("\n")
    new = textwrap.dedent(new).strip("\n")
    first = min([n.lineno] + ([d.lineno for d in n.decorator_list] if new.lstrip().startswith("@") or not keepdec else []))
    ind = " " * n.col_offset
    body = [(ind + l) if l.strip() else "" for l in new.split("\n")]
    return "\n".join(lines[:first - 1] + body + lines[n.end_lineno:])


def R(id, *edits, pre=None):
    """edits: (file, qualname, new source) or (file, old text, new text, 'text')"""
    assert id not in ALL, id
    ALL[id] = edits


def texts(id):
    out = {}
    for e in ALL[id]:
        f = e[0]
        t = out.get(f) or open(REPO + f).read()
        if len(e) == 4:
            assert t.count(e[1]) >= 1, (id, e[1])
            t = t.replace(e[1], e[2]) if e[3] == "all" else t.replace(e[1], e[2], 1)
        else:
            t = replace(t, e[1], e[2])
        compile(t, f, "exec")
        out[f] = t
    return out


def job(a):
    sys.setrecursionlimit(20000)
    id, pid = a
    from pfsa.run import decide, known_findings, is_known
    import time
    t0 = time.time()
    ck = decide(pid, override={"petrofit/" + f: t for f, t in texts(id).items()})
    known = known_findings()
    v = [(o.label, o.construct, o.detail[:6000]) for o in ck.obs if o.status == "violated" and not is_known(pid, o, known)]
    u = [(o.label, o.detail[:160]) for o in ck.obs if o.status == "undecided"]
    return id, pid, v, u, time.time() - t0


def main():
    import multiprocessing as mp
    from pfsa.rules import registry
    pids = sorted(registry())
    want = sys.argv[1:]
    p = [w for w in want if w in pids]
    ids = [i for i in ALL if not [w for w in want if w not in pids] or any(w in i for w in want if w not in pids)]
    jobs = [(i, q) for i in ids for q in (p or pids)]
    for i in ids:
        texts(i)
    bad = und = 0
    res = {}
    with mp.Pool(8) as pool:
        for id, pid, v, u, t in pool.imap(job, jobs, chunksize=1):
            if v:
                bad += 1
                print("ALARM %s %s: %s | %s | %s" % (id, pid, v[0][0][:80], v[0][1][:70], v[0][2][:int(os.environ.get("W","160"))]))
            if u:
                und += len(u)
                print("  undecided %s %s: %d, %s | %s" % (id, pid, len(u), u[0][0][:60], u[0][1][:110]))
            if t > 200:
                print("  slow %s %s %.0fs" % (id, pid, t))
            sys.stdout.flush()
    print("%d refactorings, %d alarms, %d undecided obligations" % (len(ids), bad, und))


def run():
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    t.join()
