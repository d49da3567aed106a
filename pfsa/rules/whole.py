"""P32, P33, P36: rules that hold over every public entry point."""
import ast
import builtins
import re
from ..terms import *
from ..terms import Term
from .. import libs, harness
from .entries import entries, HEAD, Entry, KIND, lst, dct, objs, TABLE
from .correction import announced

PKG = "petrofit"


# ------------------------------------------------------------------ shared
def trees(ck):
    """(module name, tree, path) of the package proper"""
    out = []
    for m in sorted(ck.source.files):
        if (m == PKG or m.startswith(PKG + ".")) and ".tests" not in m and not m.endswith("conftest"):
            t = ck.source.tree(m)
            if t is not None:
                out.append((m, t, ck.source.files[m][0].split("/repo/")[-1]))
    return out


def functions(tree, prefix=""):
    """(qualname, node, class or None) of every function"""
    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield prefix + n.name, n, None
        elif isinstance(n, ast.ClassDef):
            for q, f, c in functions(n, prefix + n.name + "."):
                yield q, f, c or n


def public(ck):
    """public functions and methods: qualname -> node"""
    out = {}
    for m, t, path in trees(ck):
        names = None
        for s in t.body:
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == "__all__":
                try:
                    names = set(ast.literal_eval(s.value))
                except ValueError:
                    pass
        for q, f, c in functions(t):
            top = q.split(".")[0]
            if names is not None and top not in names and "." in q or f.name.startswith("_") and f.name != "__init__":
                continue
            if any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in f.decorator_list):
                continue
            out[m + "." + q] = f
    return out


def sites(o, kinds):
    return [e for e in o.events if e.kind in kinds]


def place(e):
    return ck_loc(e.site)


def ck_loc(p):
    return "%s:%s (%s)" % (str(p[0]).split("/repo/")[-1], p[1], p[2])


def inside_package(e):
    return not str(e.site[0]).startswith("<")


# ------------------------------------------------------------------ P32
GLOBAL_STATE = ("numpy.random.seed", "numpy.seterr", "numpy.seterrcall", "numpy.set_printoptions", "random.seed", "warnings.simplefilter", "warnings.filterwarnings",
                "warnings.resetwarnings", "matplotlib.pyplot.style.use", "matplotlib.style.use", "matplotlib.use", "matplotlib.pyplot.switch_backend",
                "matplotlib.rc", "matplotlib.pyplot.rc", "matplotlib.pyplot.rcdefaults", "os.chdir", "os.putenv", "sys.setrecursionlimit", "os.environ.update",
                "matplotlib.pyplot.rcParams.update", "matplotlib.rcParams.update", "numpy.random.set_state", "sys.path.append", "sys.path.insert",
                "astropy.units.set_enabled_units", "astropy.units.add_enabled_units", "astropy.conf.reload_config")
DRAWN = ("obj:Axes", "obj:Figure")


def changed_inputs(e, params):
    """the state outside the call that an event changes, or None"""
    if e.kind == "mutate":
        o = e.data[0]
        if o[0] == "arg" and isinstance(params.get(o[1]), str) and params[o[1]].startswith("obj:Axes") or o[0] == "arg" and o[1] in ("axs", "ax"):
            return None
        what = {"arg": "argument %s", "default": "default value of %s", "global": "module variable %s", "class": "class attribute %s", "extern": "%s of another package"}.get(o[0], "%s")
        return (what % ".".join(str(x) for x in o[1:])) + " by " + str(e.data[1])
    if e.kind in ("ext-setattr", "ext-setitem"):
        t = e.data[0]
        while t.op in ("attr", "getitem", "view", "slice"):
            t = t.args[0]
        if t.op == "sym" and any(t.args[0] == n or t.args[0].startswith(n) and t.args[0][len(n):].isdigit() for n in params):
            if kind_of(t) in DRAWN:
                return None
            return "argument %s by assigning %s" % (t.args[0], show(e.data[1], 3) if isinstance(e.data[1], Term) else "." + str(e.data[1]))
    if e.kind == "extcall" and e.data[0] in GLOBAL_STATE:
        if e.data[0].startswith("warnings."):
            return None if any(x.kind == "extcall" for x in ()) else "warning filters by " + e.data[0]
        return "process-wide state by " + e.data[0]
    return None


def kind_of(t):
    return t.args[1] if t.op == "sym" and len(t.args) > 1 else ""


OBSERVED = ("epsilon", "eta", "epsilon_fraction", "total_flux_fraction", "r_petrosian", "r_petrosian_err", "r_total_flux", "r_total_flux_err", "total_flux", "half_flux", "r_half_light", "r_half_light_err",
            "c2080", "c5090")


def p32(ck):
    for e in entries():
        o = ck.run(e.text(), e.params(), opts=e.options())
        bad = [(x, w) for x in o.events if inside_package(x) or x.kind == "mutate" for w in [changed_inputs(x, e.params())] if w]
        # a store into a freshly made object is not an input
        if bad:
            x, w = bad[0]
            ck.holds("no input, default or shared state is written to", e.label, False, "changes the %s" % w, ck_loc(x.site), o)
        else:
            ck.holds("no input, default or shared state is written to", e.label, None if o.unsup else True, str(o.unsup or ""), "", o)
        if not e.pre and e.call[0].islower() or e.pre:
            pass
    for e in entries():
        if e.call.startswith(("plot_", "p.plot", "p.imshow", "k.plot")) or "plot=True" in e.call or e.slow:
            continue
        ck.law("called twice: " + e.label, e.text("    one = %s\n    two = %s\n    return ((one, two),)\n"), e.params(), opts=e.options(),
               rule="a repeated call gives the same result")
    # histories of one measurement object
    co = "petrofit.petrosian.core."
    seen = set()
    for e in entries():
        if not e.func.startswith(co + "Petrosian.") or not e.pre or e.tag not in ("no errors", "errors"):
            continue
        if e.tag == "errors" and not any(w in e.call for w in ("plot", "imshow", "concentration", "fraction")):
            continue
        obs = "(" + ", ".join("p." + a for a in OBSERVED) + ", tuple(p.r_list), tuple(p.flux_list), tuple(p.area_list))"
        kinds = {k: "arr1,len=3" for k in ("r_list", "area", "flux", "area_err", "flux_err")}
        ck.law("measurements before and after %s" % e.label, e.text("    before = %s\n    x = %%s\n    after = %s\n    return tuple(zip(before[:-3], after[:-3])) + tuple(zip(before[-3], after[-3])) + tuple(zip(before[-2], after[-2])) + tuple(zip(before[-1], after[-1]))\n" % (obs, obs)),
               e.params(**kinds), opts=e.options(), rule="a query leaves the measurement as it was")
    grid = "    g = generate_petrosian_sersic_correction(None, r_eff_list=r_effs, n_list=ns)\n    p = Petrosian(r_list, area, flux)\n    k = PetrosianCorrection(g)\n"
    core = {co + n: harness.abstract(n, nret=2, arr=n == "calculate_petrosian") for n in ("calculate_petrosian", "calculate_petrosian_r", "fraction_to_r")}
    core[co + "calculate_concentration_index"] = harness.abstract("concentration", nret=3)
    from .correction import abstract_row
    core["petrofit.petrosian.correction._generate_petrosian_correction"] = abstract_row
    for m in ("correct", "estimate_n", "estimate_epsilon"):
        for c in ("n", "r_eff", "u_r_50", "u_c2080", "c_epsilon"):
            ck.law("grid column %s before and after %s" % (c, m), HEAD + "def client(r_effs, ns, r_list, area, flux):\n%s    before = tuple(g[%r])\n    k.%s(p)\n    return tuple(zip(before, tuple(g[%r])))\n" % (grid, c, m, c),
                   {k: KIND[k] for k in ("r_effs", "ns", "r_list", "area", "flux")}, opts={"override": core}, rule="a query leaves the grid as it was")
        obs = "(" + ", ".join("p." + a for a in OBSERVED) + ")"
        ck.law("measurement before and after %s" % m, HEAD + "def client(r_effs, ns, r_list, area, flux):\n%s    before = %s\n    k.%s(p)\n    return tuple(zip(before, %s))\n" % (grid, obs, m, obs),
               {k: KIND[k] for k in ("r_effs", "ns", "r_list", "area", "flux")}, opts={"override": core}, rule="a query leaves the measurement as it was")


# ------------------------------------------------------------------ P33
REFERENCE = {"undefined-name": "uses the undefined name %s", "missing-attr": "%s has no attribute %s", "bad-call": "call of %s: %s", "unpack-mismatch": "unpacks %s",
             "missing-key": "asks for %s, which is never stored", "table-schema": "table columns: %s", "raise-nonexception": "raises %s, which is not an exception",
             "unresolved-import": "imports %s", "undefined-export": "%s exports %s, which does not exist", "readonly-attr": "assigns the read-only %s", "del-missing": "deletes %s, which does not exist",
             "index-out-of-range": "index out of range: %s", "none-op": "operation %s on None"}


def describe(e):
    f = REFERENCE[e.kind]
    d = e.data if isinstance(e.data, tuple) else (e.data,)
    d = tuple(show(x, 3) if isinstance(x, Term) else str(x) for x in d)
    n = f.count("%s")
    return f % (d[:n] if len(d) >= n else d + ("",) * (n - len(d))) if n != 1 else f % " ".join(d)


class Scopes(ast.NodeVisitor):
    """names used in a module that no enclosing scope, import or builtin defines"""

    def __init__(self, ck, mod, tree):
        self.ck, self.mod, self.tree = ck, mod, tree
        self.bad, self.open = [], False
        self.used = 0
        self.globals = self.bound(tree, module=True)
        for n in ast.walk(tree):
            if isinstance(n, ast.Global):
                self.globals |= set(n.names)
        self.stack = [self.globals]

    def star(self, m):
        src = self.ck.source
        if m in src.files:
            t = src.tree(m)
            for s in t.body:
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == "__all__":
                    try:
                        return set(ast.literal_eval(s.value))
                    except ValueError:
                        return None
            return {n for n in Scopes(self.ck, m, t).globals if not n.startswith("_")}
        return None

    def absolute(self, node):
        if not node.level:
            return node.module
        path = self.ck.source.files[self.mod][0]
        base = (self.mod if path.endswith("__init__.py") else self.mod.rpartition(".")[0]).split(".")
        base = base[:len(base) - (node.level - 1)]
        return ".".join(base + ([node.module] if node.module else []))

    def bound(self, node, module=False):
        out = set()
        todo = list(ast.iter_child_nodes(node)) if not isinstance(node, ast.Lambda) else [node.body]
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = node.args
            out |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        glob = set()
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(n.name)
                todo.extend(n.decorator_list)
                continue
            if isinstance(n, (ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
                for w in ast.walk(n):
                    if isinstance(w, ast.NamedExpr) and isinstance(w.target, ast.Name):
                        out.add(w.target.id)
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, ast.Import):
                out |= {a.asname or a.name.split(".")[0] for a in n.names}
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if a.name == "*":
                        s = self.star(self.absolute(n))
                        if s is None:
                            self.open = True
                        else:
                            out |= s
                    else:
                        out.add(a.asname or a.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                glob |= set(n.names)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                out.add(n.name)
            todo.extend(ast.iter_child_nodes(n))
        return out - glob

    def scope(self, node, names):
        self.stack.append(names)
        yield_ = None
        for n in ast.iter_child_nodes(node):
            self.visit(n)
        self.stack.pop()

    def visit_FunctionDef(self, node):
        for d in node.decorator_list + node.args.defaults + [x for x in node.args.kw_defaults if x]:
            self.visit(d)
        saved = self.stack
        # names of an enclosing class body are not visible in its functions
        self.stack = [s for s in self.stack if not isinstance(s, ClassScope)] + [self.bound(node)]
        for s in node.body:
            self.visit(s)
        self.stack = saved

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        for d in node.args.defaults:
            self.visit(d)
        self.scope(node, self.bound(node))

    def visit_ClassDef(self, node):
        for d in node.decorator_list + node.bases + [k.value for k in node.keywords]:
            self.visit(d)
        self.stack.append(ClassScope(self.bound(node) | {"__module__", "__qualname__"}))
        for s in node.body:
            self.visit(s)
        self.stack.pop()

    def comp(self, node):
        names = {n.id for g in node.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        self.scope(node, names)

    visit_GeneratorExp = visit_ListComp = visit_SetComp = visit_DictComp = comp

    def visit_Try(self, node):
        caught = any(h.type is None or any(w in ast.unparse(h.type) for w in ("NameError",)) for h in node.handlers)
        if caught:
            n = len(self.bad)
            for s in node.body:
                self.visit(s)
            del self.bad[n:]
            for s in node.handlers + node.orelse + node.finalbody:
                self.visit(s)
        else:
            self.generic_visit(node)

    def visit_arg(self, node):
        pass

    def visit_AnnAssign(self, node):
        self.visit(node.target)
        if node.value:
            self.visit(node.value)

    def visit_Name(self, node):
        self.used += 1
        if isinstance(node.ctx, ast.Load) and not self.open and not any(node.id in s for s in self.stack) and not hasattr(builtins, node.id) and node.id not in ("__file__", "__name__", "__path__", "__doc__", "__spec__", "__package__"):
            self.bad.append((node.id, node.lineno))


class ClassScope(set):
    pass


def guarded(parents, node, words):
    """inside a try that handles these errors, or under a test that asks for the name"""
    n = node
    while n in parents:
        p = parents[n]
        if isinstance(p, ast.Try) and n in p.body and any(h.type is None or any(w in ast.unparse(h.type) for w in words) for h in p.handlers):
            return True
        if isinstance(p, (ast.If, ast.IfExp, ast.BoolOp)) and any(w in ast.unparse(p.test if hasattr(p, "test") else p) for w in ("hasattr", "getattr", "version")):
            return True
        n = p
    return False


def dotted(node):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        return node.id, list(reversed(parts))
    return None, None


def imported(sc, tree):
    """module alias -> dotted name, at any level of the module"""
    out, froms = {}, []
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom):
            m = sc.absolute(n)
            for a in n.names:
                if a.name != "*":
                    froms.append((n, m, a.name, a.asname or a.name))
    return out, froms


def p33(ck):
    rule = "every reference resolves"
    for m, tree, path in trees(ck):
        sc = Scopes(ck, m, tree)
        sc.visit(tree)
        ck.holds(rule, "names of %s (%d uses)" % (m, sc.used), not sc.bad, "undefined name %s at line %s" % sc.bad[0] if sc.bad else "", "%s:%s" % (path, sc.bad[0][1]) if sc.bad else "")
        parents = {c: p for p in ast.walk(tree) for c in ast.iter_child_nodes(p)}
        alias, froms = imported(sc, tree)
        bad = []
        n = 0
        files = ck.source.files
        for node, mod, name, local in froms:
            if mod in files or mod + "." + name in files:
                if mod + "." + name in files:
                    continue
                n += 1
                if name not in Scopes(ck, mod, ck.source.tree(mod)).globals and not guarded(parents, node, ("ImportError", "Exception")):
                    bad.append((node.lineno, "%s has no %s" % (mod, name)))
                continue
            n += 1
            st = libs.lookup(mod, name)[0] if libs.exists(mod) else libs.exists(mod)
            if st is False and not guarded(parents, node, ("ImportError", "Exception")):
                bad.append((node.lineno, "%s has no %s" % (mod, name)))
            elif st is True and libs.lookup(mod, name)[1] and libs.lookup(mod, name)[1][0] == "module":
                alias[local] = libs.lookup(mod, name)[1][1]
        for node in ast.walk(tree):
            if isinstance(node, ast.Import):
                for a in node.names:
                    n += 1
                    if a.name not in files and libs.exists(a.name) is False and not guarded(parents, node, ("ImportError", "Exception")):
                        bad.append((node.lineno, "there is no module " + a.name))
        ck.holds(rule, "imports of %s (%d)" % (m, n), not bad, "%s at line %d" % (bad[0][1], bad[0][0]) if bad else "", "%s:%s" % (path, bad[0][0]) if bad else "")
        # members of library modules
        bad, n = [], 0
        calls, fmt = [], []
        local = shadowed(tree)
        for node in ast.walk(tree):
            if isinstance(node, ast.Attribute) and not isinstance(parents.get(node), ast.Attribute):
                head, parts = dotted(node)
                if head in alias and alias[head] not in files and head not in local.get(owner(parents, node), ()):
                    n += 1
                    if libs.resolve(".".join([alias[head]] + parts))[0] is False and not guarded(parents, node, ("AttributeError", "Exception")):
                        bad.append((node.lineno, "%s has no %s" % (alias[head], ".".join(parts))))
            if isinstance(node, ast.Call):
                r = library_call(node, alias, froms, files, local.get(owner(parents, node), ()))
                if r is not None:
                    calls.append(node)
                    if r and not guarded(parents, node, ("TypeError", "Exception")):
                        bad.append((node.lineno, r))
                f = format_call(node)
                if f is not None:
                    fmt.append(node)
                    if f:
                        bad.append((node.lineno, f))
            if isinstance(node, ast.Raise) and isinstance(node.exc, (ast.Constant, ast.JoinedStr)):
                bad.append((node.lineno, "raises a constant"))
        ck.holds(rule, "library members, calls and formats used by %s (%d, %d, %d)" % (m, n, len(calls), len(fmt)), not bad, "%s at line %d" % (bad[0][1], bad[0][0]) if bad else "", "%s:%s" % (path, bad[0][0]) if bad else "")
        exports(ck, m, tree, path, sc)
    kinds = set(REFERENCE)
    covered = set()
    for e in entries() + grid_entries():
        o = ck.run(e.text(), e.params(), opts=e.options())
        if o.it is not None:
            covered |= set(o.it.inlined)
        failed = {site for _, exc, site, _ in o.raises if "TypeError" in show(exc, 3)}
        bad = [x for x in o.events if x.kind in kinds and inside_package(x) and (x.kind != "none-op" or x.site in failed)]
        if not bad:
            r = objects(o)
            if r:
                ck.holds(rule, e.label, False, r[0], r[1], o)
                continue
        if bad:
            ck.holds(rule, e.label, False, describe(bad[0]), ck_loc(bad[0].site), o)
        elif o.unsup:
            ck.holds(rule, e.label, None, o.unsup, "", o)
        else:
            dead = o.value is None and not o.raises
            ck.holds(rule, e.label, None if dead else True, "no outcome", "", o)
    missing = sorted(q for q in public(ck) if q not in covered)
    ck.notes = {"public functions and methods not reached by any analysed call": missing}


def owner(parents, node):
    while node in parents:
        node = parents[node]
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            return node
    return None


def shadowed(tree):
    """names a function binds itself"""
    out = {}
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            a = f.args
            out[f] = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]} | {
                n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    return out


def library_call(node, alias, froms, files, local):
    """None: not decided; '' fits; text: what is wrong with the arguments"""
    if any(isinstance(a, ast.Starred) for a in node.args) or any(k.arg is None for k in node.keywords):
        return None
    d = None
    if isinstance(node.func, ast.Name):
        for n, mod, name, loc in froms:
            if loc == node.func.id and mod not in files and loc not in local:
                st, d = libs.lookup(mod, name)
    else:
        head, parts = dotted(node.func)
        if head in alias and alias[head] not in files and head not in local:
            st, d = libs.resolve(".".join([alias[head]] + parts))
    if not (isinstance(d, tuple) and d[0] != "module"):
        return None
    drop = 0
    if isinstance(d[1], ast.ClassDef):
        init = next((f for f in d[1].body if isinstance(f, ast.FunctionDef) and f.name == "__init__"), None)
        if init is None or any(isinstance(f, ast.FunctionDef) and f.name in ("__new__", "__call__") and f.name == "__new__" for f in d[1].body) or d[1].keywords or d[1].decorator_list:
            return None
        d, drop = (d[0], init), 1
    if not isinstance(d[1], ast.FunctionDef):
        return None
    args = libs.signature(d)
    if args is None:
        return None
    r = libs.fits(args, len(node.args), [k.arg for k in node.keywords], drop)
    return "" if r is None else "call of %s: %s" % (ast.unparse(node.func), r)


def format_call(node):
    f = node.func
    if not (isinstance(f, ast.Attribute) and f.attr == "format" and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str)):
        return None
    if any(isinstance(a, ast.Starred) for a in node.args) or any(k.arg is None for k in node.keywords):
        return None
    import string
    auto, need = 0, 0
    try:
        for lit, name, spec, conv in string.Formatter().parse(f.value.value):
            if name is None:
                continue
            head = re.split(r"[.\[]", name)[0]
            if head == "":
                auto += 1
            elif head.isdigit():
                need = max(need, int(head) + 1)
            elif head not in [k.arg for k in node.keywords]:
                return "the format asks for %s" % head
    except ValueError as e:
        return "format string: %s" % e
    return "" if max(auto, need) <= len(node.args) else "the format asks for %d values, %d given" % (max(auto, need), len(node.args))


def exports(ck, m, tree, path, sc):
    for s in tree.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == "__all__":
            try:
                names = ast.literal_eval(s.value)
            except ValueError:
                continue
            bad = [n for n in names if n not in sc.globals]
            ck.holds("every reference resolves", "exports of %s (%d)" % (m, len(names)), not bad, "exports %s, which does not exist" % (bad[0] if bad else ""), "%s:%s" % (path, s.lineno))


def typed(t):
    """library class of an opaque value, as a dotted name"""
    if t.op == "sym":
        k = kind_of(t)
        return {"obj:Axes": "matplotlib.axes.Axes"}.get(k, k[4:] if k.startswith("obj:") and "." in k else None)
    if t.op in ("call", "xcall"):
        n = t.args[0]
        if n.startswith("method:") or n.startswith("super:"):
            return None
        if n == "matplotlib.pyplot.gca":
            return "matplotlib.axes.Axes"
        if n in ("matplotlib.pyplot.figure", "matplotlib.pyplot.gcf"):
            return "matplotlib.figure.Figure"
        r = libs.resolve(n)
        if r[0] and isinstance(r[1], tuple) and r[1][0] != "module" and isinstance(r[1][1], ast.ClassDef):
            return n
    if t.op == "getitem" and t.args[0].op in ("call", "xcall") and t.args[0].args[0] == "matplotlib.pyplot.subplots":
        if t.args[1] is ZERO:
            return "matplotlib.figure.Figure"
        if t.args[1] is ONE:
            ks = dict(t.args[0].args[1])
            if all(ks.get(k) in (None, ONE) for k in ("nrows", "ncols", "0", "1")) and ks.get("squeeze") in (None, TRUE):
                return "matplotlib.axes.Axes"
    if t.op == "getitem" and typed_axes(t.args[0]) and t.args[1].op == "num":
        return "matplotlib.axes.Axes"
    return None


ARTIST = {"imshow": "matplotlib.image.AxesImage", "plot": "matplotlib.lines.Line2D", "axvline": "matplotlib.lines.Line2D", "axhline": "matplotlib.lines.Line2D",
          "scatter": "matplotlib.collections.PathCollection", "fill_between": "matplotlib.collections.FillBetweenPolyCollection", "set_title": "matplotlib.text.Text",
          "set_xlabel": "matplotlib.text.Text", "set_ylabel": "matplotlib.text.Text", "title": "matplotlib.text.Text", "xlabel": "matplotlib.text.Text",
          "ylabel": "matplotlib.text.Text", "text": "matplotlib.text.Text", "errorbar": "matplotlib.lines.Line2D"}


def drawing(name, items):
    """a keyword that neither a drawing function nor the artist it makes knows"""
    if name.startswith("matplotlib.pyplot."):
        f, cls = name[len("matplotlib.pyplot."):], None
    elif name.startswith("method:"):
        f = name[7:]
        recv = dict(items).get("self")
        if not isinstance(recv, Term) or typed(recv) != "matplotlib.axes.Axes":
            return None
    else:
        return None
    if f not in ARTIST:
        return None
    r = libs.resolve("matplotlib.pyplot." + f)
    if not r[0] or not isinstance(r[1], tuple) or r[1][0] == "module":
        r = libs.resolve("matplotlib.axes.Axes." + f)
        return None
    a = r[1][1].args
    known = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    if name.startswith("method:"):
        known |= {"self", "scalex", "scaley", "loc", "y", "pad", "fontdict", "labelpad", "data"}
    c = libs.resolve(ARTIST[f])
    if not c[0] or not isinstance(c[1], tuple) or c[1][0] == "module":
        return None
    for k, v in items:
        if k.isdigit() or k in known:
            continue
        if libs.member(c[1], "set_" + k) is False:
            return "%s has no option %s" % (f, k)
    return None


def typed_axes(t):
    """a row of axes"""
    if t.op == "getitem" and t.args[1] is ONE and t.args[0].op in ("call", "xcall") and t.args[0].args[0] == "matplotlib.pyplot.subplots":
        ks = dict(t.args[0].args[1])
        r, c = ks.get("nrows", ks.get("0", ONE)), ks.get("ncols", ks.get("1", ONE))
        return (r is ONE) != (c is ONE) and r.op == c.op == "num"
    return False


def objects(o):
    """first use of a member that the class of a library object does not have"""
    done = set()
    for e in o.events:
        if e.kind != "extcall" or not inside_package(e):
            continue
        for x in subterms(e.data[1]):
            if x.id in done:
                continue
            done.add(x.id)
            if x.op in ("call", "xcall") and str(x.args[0]).startswith("method:"):
                recv, name = dict(x.args[1]).get("self"), x.args[0][7:]
                w = drawing(x.args[0], x.args[1])
                if w:
                    return w, ck_loc(e.site)
            elif x.op in ("call", "xcall"):
                w = drawing(str(x.args[0]), x.args[1])
                if w:
                    return w, ck_loc(e.site)
                continue
            elif x.op == "attr":
                recv, name = x.args[0], x.args[1]
            else:
                continue
            q = typed(recv) if isinstance(recv, Term) else None
            if q is None or not isinstance(name, str):
                continue
            r = libs.resolve(q)
            if r[0] and isinstance(r[1], tuple) and r[1][0] != "module" and libs.member(r[1], name) is False:
                return "%s has no member %s" % (q, name), ck_loc(e.site)
    return None


def grid_entries():
    """corrections on a grid the package itself generates: every column that is read is written"""
    from .correction import abstract_row
    co = "petrofit.petrosian.core."
    core = {co + n: harness.abstract(n, nret=2, arr=n == "calculate_petrosian") for n in ("calculate_petrosian", "calculate_petrosian_r", "fraction_to_r")}
    core[co + "calculate_concentration_index"] = harness.abstract("concentration", nret=3)
    core["petrofit.petrosian.correction._generate_petrosian_correction"] = abstract_row
    pre = "    g = generate_petrosian_sersic_correction(None, r_eff_list=r_effs, n_list=ns)\n    p = Petrosian(r_list, area, flux)\n    k = PetrosianCorrection(g%s)\n"
    out = []
    for er in ("", ", enforce_range=False"):
        for m in ("correct", "estimate_n", "estimate_epsilon", "plot_correction"):
            out.append(Entry("petrofit.petrosian.correction.PetrosianCorrection." + m, "k.%s(p)" % m, "r_effs ns r_list area flux", pre=pre % er, tag="generated grid" + er, opts={"override": core}))
    for m in ("grid_keys", "unique_grid_values('n')", "filter_grid('n', value)"):
        out.append(Entry("petrofit.petrosian.correction.PetrosianCorrection." + m.split("(")[0], "k.%s" % m, "r_effs ns r_list area flux value", pre=pre % "", tag="generated grid", opts={"override": core}))
    return out


# ------------------------------------------------------------------ P36
def symbols(*vs):
    out, seen = set(), set()

    def add(v):
        if isinstance(v, Term):
            todo = [v]
            while todo:
                x = todo.pop()
                if x.id in seen:
                    continue
                seen.add(x.id)
                if x.op == "sym":
                    out.add(x.args[0])
                elif x.op not in ("shape", "dim", "ndim", "isnone"):
                    todo += children(x)
        elif isinstance(v, dict):
            for x in v.items():
                add(x)
        elif isinstance(v, (tuple, list)):
            for x in v:
                add(x)
    add(vs)
    return out


# options of how something is drawn or reported: they reach a drawing call, not the result
LOOKS = {"vmin", "vmax", "color", "lw", "figsize", "title", "text", "c", "ax", "axs", "a", "b", "alpha", "value", "flag", "key"}
SHOWING = ("plot_", "p.plot", "p.imshow", "p._plot", "mpl_tick", "k.write", "k.plot", "print_", "generate_petrosian_sersic_correction(name")
# an argument that the documentation of the called function excludes from the result
WITHOUT = (("interp_kind=None", "num"), ("calculate_concentration_index", "flux_err"), ("calculate_concentration_index", "r_petrosian_err"))


def named(syms, n):
    return any(re.fullmatch(re.escape(n) + r"(\d+|\.\w+|_(PHOT\w+|n|extra|MAGZPT))?", x) for x in syms)


def passed(call):
    """names used in the arguments of the analysed call itself, not in its set-up"""
    return {n.id for n in ast.walk(ast.parse(call)) if isinstance(n, ast.Name)}


def signatures(ck):
    """qualname -> parameter names, defaults, docstring, line"""
    out = {}
    for m, t, path in trees(ck):
        for q, f, c in functions(t):
            if any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in f.decorator_list):
                continue
            a = f.args
            pos = a.posonlyargs + a.args
            d = dict(zip([x.arg for x in pos][len(pos) - len(a.defaults):], a.defaults))
            d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
            doc = ast.get_docstring(f, clean=True) or ""
            if f.name == "__init__" and c is not None:
                doc = doc + "\n" + (ast.get_docstring(c, clean=True) or "")
            out[m + "." + q] = ([x.arg for x in pos + a.kwonlyargs], d, doc, "%s:%d" % (path, f.lineno), f)
    return out


HEADING = re.compile(r"^(\w+(?:\s*,\s*\w+)*)\s*:(?!\S)\s*(.*)$")


def documented(doc, names):
    """(parameter, default as written) pairs of a docstring"""
    cur, ind = (), None
    for line in doc.split("\n"):
        body = line.strip()
        k = len(line) - len(line.lstrip())
        m = HEADING.match(body)
        if m and all(x.strip() in names for x in m.group(1).split(",")) and (ind is None or k <= ind):
            cur, ind = tuple(x.strip() for x in m.group(1).split(",")), k
        elif body and ind is not None and k <= ind:
            cur, ind = (), None
        for pat in (r"[Dd]efault\s*=\s*(`?['\"]?[-\w.]+['\"]?`?)", r"[Dd]efault is\s+(?:to\s+)?(`{0,2}['\"]?[-\w. ]*['\"]?`{0,2})(?=[\s.,;)]|$)", r"[Dd]efault:\s*([-\w.'\"]+)", r"^\*\s*(``'\w+'``)\s*\(default\)", r"^If (False|True) \(default\)"):
            for v in re.findall(pat, body):
                for n in cur:
                    yield n, v.strip()


def literal(text):
    t = text.strip().strip("`").rstrip(".")
    m = re.match(r"""^(True|False|None|-?\d+(\.\d*)?(e-?\d+)?|'[^']*'|"[^"]*")""", t)
    if not m:
        return None
    return (ast.literal_eval(m.group(1)),)


def p36(ck):
    sigs = signatures(ck)
    given = {}
    rule = "every argument reaches the result"
    for e in entries():
        o = ck.run(e.text(), e.params(), opts=e.options())
        if o.unsup:
            ck.holds(rule, e.label, None, o.unsup, "", o)
            continue
        use = passed(e.call) | (set(e.names) if e.func.endswith("__init__") or not e.pre else set())
        result = symbols(o.value)
        seen = result | symbols(o.raises, [(x.data, x.pc) for x in o.events])
        lost = []
        for n in e.names:
            if n not in use or any(w in e.call and v == n for w, v in WITHOUT):
                continue
            if e.tag in ("no errors", "area errors only", "flux errors only") and ("err_alpha=" + n in e.call or "err_capsize=" + n in e.call):
                continue   # the look of error bars that need not exist here
            shown = e.call.startswith(SHOWING) or n in LOOKS and "plot" in e.call
            if not named(seen if shown else result, n):
                lost.append(n)
        ck.holds(rule, e.label, not lost, "the argument %s has no influence on the outcome" % ", ".join(lost) if lost else "", e.func, o)
        if e.func in sigs:
            given.setdefault(e.func, set()).update(bindings(e.call, sigs[e.func]))
        # an option handed on under the name of another one
        own = set(sigs[e.func][0]) if e.func in sigs else set()
        arg = dict(argmap(e.call, sigs[e.func])) if e.func in sigs else {}
        back = {v: k for k, v in arg.items()}
        bad = None
        n = 0
        for x in o.events:
            if x.kind != "extcall" or not inside_package(x) or not isinstance(x.data[1], Term) or x.data[1].op not in ("call", "xcall"):
                continue
            for k, v in x.data[1].args[1]:
                if k in own and isinstance(v, Term) and v.op == "sym" and v.args[0] in back:
                    n += 1
                    if back[v.args[0]] != k and arg.get(k) is not None:
                        bad = bad or (x, k, back[v.args[0]])
        ck.holds("options keep their name", "%s, %d handed on" % (e.label, n), bad is None, "%s is called with %s=%s" % (bad[0].data[0], bad[1], bad[2]) if bad else "", ck_loc(bad[0].site) if bad else "", o)
    # documented defaults
    for q, (names, d, doc, where, f) in sorted(sigs.items()):
        pairs = [(n, w, literal(w)) for n, w in documented(doc, names) if n in d]
        for n, w, v in pairs:
            if v is None:
                continue
            try:
                actual = ast.literal_eval(d[n])
            except ValueError:
                continue
            ok = actual == v[0] and (isinstance(actual, bool) == isinstance(v[0], bool))
            ck.holds("documented defaults", "%s of %s" % (n, q), ok, "the default is %r, documented as %r" % (actual, v[0]), where)
    return given, sigs


def argmap(call, sig):
    """parameter -> symbol handed to it by the analysed call"""
    n = ast.parse(call, mode="eval").body
    if not isinstance(n, ast.Call):
        return []
    names = [x for x in sig[0] if x not in ("self", "cls")]
    out = [(p, a.id) for p, a in zip(names, n.args) if isinstance(a, ast.Name)]
    return out + [(k.arg, k.value.id) for k in n.keywords if isinstance(k.value, ast.Name)]


def bindings(call, sig):
    n = ast.parse(call, mode="eval").body
    if not isinstance(n, ast.Call):
        return []
    names = [x for x in sig[0] if x not in ("self", "cls")]
    return [p for p, a in zip(names, n.args)] + [k.arg for k in n.keywords]


RULES = {"P32": p32, "P33": p33, "P36": p36}
