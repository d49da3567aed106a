"""Self-test of the checks: in-memory mutants of the analysed functions, each decided by the same rule.

Nothing is executed or written; a mutant is the package's source text with one construct replaced.
"""
import ast
import copy
import os
import random
import time

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv}


def functions(tree, module):
    """(qualified name, node, class node) of every function"""
    out = []

    def go(node, pre, cls):
        for n in getattr(node, "body", []):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((pre + "." + n.name, n, cls))
            elif isinstance(n, ast.ClassDef):
                go(n, pre + "." + n.name, n)
            elif isinstance(n, (ast.If, ast.Try)):
                go(n, pre, cls)
    go(tree, module, None)
    return out


def isdoc(st):
    return isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)


def mutations(fn, cls):
    """list of (description, line, apply) where apply edits the tree in place"""
    out = []
    locs = sorted({n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} |
                  {a.arg for a in fn.args.args + fn.args.kwonlyargs if a.arg not in ("self", "cls")})
    attrs = sorted({n.attr for n in ast.walk(cls or fn) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self"})

    def add(d, n, f):
        out.append((d, getattr(n, "lineno", fn.lineno), f))

    def field(obj, name, val, d, n):
        def f():
            setattr(obj, name, val)
        add(d, n, f)
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.Raise,)):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("format", "warn"):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.Assert) and n.msg is not None:
            for m in ast.walk(n.msg):
                skip.add(id(m))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print":
            for m in ast.walk(n):
                skip.add(id(m))
    for n in ast.walk(fn):
        if id(n) in skip:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            field(n, "op", BIN[type(n.op)](), "%s -> %s" % (type(n.op).__name__, BIN[type(n.op)].__name__), n)
            if isinstance(n.op, (ast.Sub, ast.Div)):
                def sw(n=n):
                    n.left, n.right = n.right, n.left
                add("operands swapped", n, sw)
        elif isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            def f(n=n):
                n.ops[0] = CMP[type(n.ops[0])]()
            add("comparison %s changed" % type(n.ops[0]).__name__, n, f)
        elif isinstance(n, ast.BoolOp):
            field(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And(), "and/or exchanged", n)
            if len(n.values) > 1:
                def f(n=n):
                    n.values.pop()
                add("last condition dropped", n, f)
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            def f(n=n):
                n.test = ast.copy_location(ast.UnaryOp(ast.Not(), n.test), n.test)
            add("condition negated", n, f)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            def f(n=n):
                n.op = ast.UAdd() if isinstance(n.op, ast.USub) else n.op
                if not isinstance(n.op, ast.UAdd):
                    n.operand = ast.copy_location(ast.UnaryOp(copy.copy(n.op), n.operand), n)
            add("unary operator dropped", n, f)
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                field(n, "value", not v, "%s -> %s" % (v, not v), n)
            elif isinstance(v, int):
                field(n, "value", v + 1, "%d -> %d" % (v, v + 1), n)
            elif isinstance(v, float):
                field(n, "value", v * 1.25 + 0.01, "%g changed" % v, n)
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                def f(n=n):
                    n.args[0], n.args[1] = n.args[1], n.args[0]
                add("first two arguments swapped", n, f)
            for i, k in enumerate(n.keywords):
                if k.arg:
                    def f(n=n, i=i):
                        n.keywords.pop(i)
                    add("keyword %s dropped" % k.arg, n, f)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in locs and len(locs) > 1:
            i = locs.index(n.id)
            o = [l for l in locs if l != n.id and (l[:1] == n.id[:1] or len(locs) < 5)] or [locs[(i + 1) % len(locs)]]
            field(n, "id", o[0], "%s -> %s" % (n.id, o[0]), n)
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and len(attrs) > 1 and isinstance(n.ctx, ast.Load):
            i = attrs.index(n.attr)
            pre = [a for a in attrs if a != n.attr and a[:3] == n.attr[:3]]
            o = (pre or [attrs[(i + 1) % len(attrs)]])[0]
            field(n, "attr", o, "self.%s -> self.%s" % (n.attr, o), n)
        for name in ("body", "orelse", "finalbody"):
            b = getattr(n, name, None)
            if isinstance(b, list):
                for i, st in enumerate(b):
                    if isinstance(st, (ast.Assign, ast.AugAssign)) or (isinstance(st, ast.Expr) and not isdoc(st)) or isinstance(st, (ast.Raise, ast.Assert)) \
                            or (isinstance(st, ast.If) and not st.orelse):
                        def f(b=b, i=i, st=st):
                            b[i] = ast.copy_location(ast.Pass(), st)
                        add("statement dropped: %s" % ast.unparse(st).split("\n")[0][:50], st, f)
    return out


def mutants(source, quals):
    """(file, qualname, line, description, new text) for every mutation of the given functions"""
    out = []
    for mod, (path, text) in source.files.items():
        tree = ast.parse(text)
        for k, (q, fn, cls) in enumerate(functions(tree, mod)):
            if q not in quals:
                continue
            for i in range(len(mutations(fn, cls))):
                out.append((mod, path, q, i, k))
    return out


def apply(source, m):
    mod, path, q, i, k = m
    tree = ast.parse(source.files[mod][1])
    q2, fn, cls = functions(tree, mod)[k]
    d, line, f = mutations(fn, cls)[i]
    f()
    ast.fix_missing_locations(tree)
    return d, line, ast.unparse(tree)


def _one(job):
    import sys
    sys.setrecursionlimit(20000)
    pid, root, m = job
    from .run import decide
    from .interp import Source
    src = Source(root)
    try:
        d, line, text = apply(src, m)
    except Exception as e:
        return m, "?", 0, "skipped", str(e), 0
    t0 = time.time()
    import signal

    def stop(*a):
        raise TimeoutError
    signal.signal(signal.SIGALRM, stop)
    signal.alarm(150)
    try:
        ck = decide(pid, root, override={m[1]: text}, total=110)
    except TimeoutError:
        return m, d, line, "timeout", "", time.time() - t0
    finally:
        signal.alarm(0)
    from .run import known_findings, is_known
    known = known_findings()
    v = [o for o in ck.obs if o.status == "violated" and not is_known(pid, o, known)]
    u = [o for o in ck.obs if o.status == "undecided"]
    return m, d, line, "caught" if v else "undecided" if u else "quiet", (v[0].label if v else u[0].detail if u else "")[:200], time.time() - t0


def campaign(pid, root, sample, seed, budget=None):
    import multiprocessing as mp
    from .run import decide
    from .interp import Source
    ck = decide(pid, root)
    src = Source(root)
    ms = mutants(src, set(ck.functions))
    random.Random(seed).shuffle(ms)
    total = len(ms)
    if sample:
        ms = ms[:sample]
    t0 = time.time()
    res = []
    with mp.Pool(min(8, os.cpu_count() or 1)) as pool:
        for r in pool.imap_unordered(_one, [(pid, root, m) for m in ms]):
            res.append(r)
            if budget and time.time() - t0 > budget:
                pool.terminate()
                break
    return total, sorted(res, key=lambda r: (r[0], r[1]))


def sensitivity(pid, root, seed):
    """evidence block for the thorough tier"""
    total, res = campaign(pid, root, 160, seed, 420)
    n = {}
    for r in res:
        n[r[3]] = n.get(r[3], 0) + 1
    return {"self_test": {"mutations_possible": total, "mutants_decided": len(res), "by_verdict": n,
                          "quiet": ["%s:%d %s: %s" % (r[0][0], r[2], r[0][2].split(".")[-1], r[1]) for r in res if r[3] == "quiet"][:80]}}
