"""auto.py [transformation...] [PID...]: behaviour-preserving rewrites of the whole package; every check should stay quiet (development aid)
auto.py --write NAME DIR: apply one to a copy of the repository, to run its tests there"""
import ast, copy, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refactorlib as L
ROOT = os.environ.get("PFSA_ROOT", "/repo")
FILES = ["photometry.py", "segmentation.py", "utils.py", "petrosian/core.py", "petrosian/correction.py", "modeling/fitting.py", "modeling/models.py"]
T = {}
N, C = ast.Name, ast.Constant


def t(cls):
    T[cls.__name__] = cls
    return cls


def load(n): return N(n, ast.Load())
def store(n): return N(n, ast.Store())


class Base(ast.NodeTransformer):
    def __init__(self):
        self.k = 0

    def new(self, stem="tmp"):
        self.k += 1
        return "_%s%d" % (stem, self.k)

    def file(self, tree):
        return self.visit(tree)


class Funcs(Base):
    """only statements inside functions"""
    depth = 0

    def visit_FunctionDef(self, n):
        self.depth += 1
        n.body = [y for x in n.body for y in (lambda r: r if isinstance(r, list) else [r])(self.visit(x)) if y is not None]
        self.depth -= 1
        return n

    def visit_Lambda(self, n):
        return n


@t
class plain(Base):
    pass


@t
class ifswap(Funcs):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n


@t
class ternswap(Funcs):
    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


@t
class tern2if(Funcs):
    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp):
            return ast.If(n.value.test, [ast.Assign(copy.deepcopy(n.targets), n.value.body)], [ast.Assign(n.targets, n.value.orelse)])
        return n

    def visit_Return(self, n):
        if isinstance(n.value, ast.IfExp):
            return [ast.If(n.value.test, [ast.Return(n.value.body)], []), ast.Return(n.value.orelse)]
        return n


@t
class if2tern(Funcs):
    def visit_If(self, n):
        self.generic_visit(n)
        a, b = n.body, n.orelse
        if len(a) == len(b) == 1 and isinstance(a[0], ast.Assign) and isinstance(b[0], ast.Assign) and len(a[0].targets) == 1 and isinstance(a[0].targets[0], N) and ast.dump(a[0].targets[0]) == ast.dump(b[0].targets[0]):
            return ast.Assign(a[0].targets, ast.IfExp(n.test, a[0].value, b[0].value))
        if len(a) == 1 and not b and isinstance(a[0], ast.Assign) and len(a[0].targets) == 1 and isinstance(a[0].targets[0], N) and any(isinstance(x, N) and x.id == a[0].targets[0].id for x in ast.walk(n.test)):
            return ast.Assign(a[0].targets, ast.IfExp(n.test, a[0].value, load(a[0].targets[0].id)))
        return n


def trivial(x):
    return isinstance(x, (N, C, ast.Starred)) or isinstance(x, ast.UnaryOp) and isinstance(x.operand, C) or isinstance(x, ast.Attribute) and trivial(x.value)


@t
class hoist(Funcs):
    """call arguments computed beforehand"""
    def go(self, n):
        out = []
        v = n.value
        if isinstance(v, ast.Call) and trivial(v.func) and not any(isinstance(a, ast.Starred) for a in v.args):
            for i, a in enumerate(v.args):
                if not trivial(a):
                    k = self.new()
                    out.append(ast.Assign([store(k)], a))
                    v.args[i] = load(k)
            for kw in v.keywords:
                if kw.arg and not trivial(kw.value):
                    k = self.new()
                    out.append(ast.Assign([store(k)], kw.value))
                    kw.value = load(k)
        return out + [n]

    def visit_Assign(self, n): return self.go(n)
    def visit_Expr(self, n): return self.go(n)
    def visit_Return(self, n): return self.go(n) if n.value is not None else n


@t
class operands(Funcs):
    """both sides of an operation computed beforehand"""
    def go(self, n):
        v = n.value
        if isinstance(v, ast.BinOp) and not isinstance(v.op, ast.Mod):
            a, b = self.new(), self.new()
            out = [ast.Assign([store(a)], v.left), ast.Assign([store(b)], v.right)]
            v.left, v.right = load(a), load(b)
            return out + [n]
        return n

    def visit_Assign(self, n): return self.go(n)
    def visit_Return(self, n): return self.go(n) if n.value is not None else n


@t
class result(Funcs):
    def visit_Return(self, n):
        if n.value is None or trivial(n.value):
            return n
        k = self.new("result")
        return [ast.Assign([store(k)], n.value), ast.Return(load(k))]


@t
class testvar(Funcs):
    def visit_If(self, n):
        self.generic_visit(n)
        k = self.new("cond")
        test, n.test = n.test, load(k)
        return [ast.Assign([store(k)], test), n]


@t
class indexloop(Funcs):
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        s, i = self.new("seq"), self.new("i")
        n.body = [ast.Assign([n.target], ast.Subscript(load(s), load(i), ast.Load()))] + n.body
        n.iter, it = ast.Call(load("range"), [ast.Call(load("len"), [load(s)], [])], []), n.iter
        n.target = store(i)
        return [ast.Assign([store(s)], ast.Call(load("list"), [it], [])), n]


@t
class whileloop(Funcs):
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse or any(isinstance(x, ast.Continue) for x in ast.walk(n)):
            return n
        s, i = self.new("seq"), self.new("i")
        body = [ast.Assign([n.target], ast.Subscript(load(s), load(i), ast.Load()))] + n.body + [ast.AugAssign(store(i), ast.Add(), C(1))]
        return [ast.Assign([store(s)], ast.Call(load("list"), [n.iter], [])), ast.Assign([store(i)], C(0)),
                ast.While(ast.Compare(load(i), [ast.Lt()], [ast.Call(load("len"), [load(s)], [])]), body, [])]


@t
class comp2loop(Funcs):
    def go(self, n):
        v = n.value
        if isinstance(v, ast.ListComp) and len(v.generators) == 1:
            g = v.generators[0]
            k = self.new("acc")
            step = ast.Expr(ast.Call(ast.Attribute(load(k), "append", ast.Load()), [v.elt], []))
            body = [ast.If(c, [step], []) for c in g.ifs] if g.ifs else [step]
            n.value = load(k)
            return [ast.Assign([store(k)], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, []), n]
        return n

    def visit_Assign(self, n): return self.go(n)
    def visit_Return(self, n): return self.go(n) if n.value is not None else n


@t
class rename(Funcs):
    def visit_FunctionDef(self, n):
        if self.depth:
            return n
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal)) for s in n.body for x in ast.walk(s)):
            return n
        a = n.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        names = {x.id for s in n.body for x in ast.walk(s) if isinstance(x, N) and isinstance(x.ctx, ast.Store)} - params
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, N) and x.id in names:
                    x.id = "the_" + x.id
                if isinstance(x, ast.ExceptHandler) and x.name in names:
                    x.name = "the_" + x.name
        return n


@t
class kwreverse(Funcs):
    def visit_Call(self, n):
        self.generic_visit(n)
        if not any(k.arg is None for k in n.keywords):
            n.keywords = n.keywords[::-1]
        return n


@t
class helper(Base):
    """every function hands its work to a helper"""
    def file(self, tree):
        out = []
        for n in tree.body:
            if isinstance(n, ast.FunctionDef):
                out += self.split(n, None)
            elif isinstance(n, ast.ClassDef):
                body = []
                for m in n.body:
                    body += self.split(m, n) if isinstance(m, ast.FunctionDef) else [m]
                n.body = body
                out.append(n)
            else:
                out.append(n)
        tree.body = out
        return tree

    def split(self, n, cls):
        a = n.args
        if a.vararg or a.kwarg or a.kwonlyargs or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)) or n.name == "__init__":
            return [n]
        static = any(isinstance(d, N) and d.id in ("staticmethod", "classmethod") for d in n.decorator_list)
        if cls is not None and static:
            return [n]
        kind_ = [d.attr for d in n.decorator_list if isinstance(d, ast.Attribute)]
        k = "_do_%s%s" % (n.name.strip("_"), "".join(kind_))
        names = [x.arg for x in a.args]
        h = ast.FunctionDef(k, ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in names], kwonlyargs=[], kw_defaults=[], defaults=[]), copy.deepcopy(n.body), [], None, type_params=[])
        doc = n.body[:1] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, C) else []
        if doc and len(h.body) > 1:
            h.body = h.body[1:]
        f = load(k) if cls is None else ast.Attribute(load(names[0]), k, ast.Load())
        n.body = doc + [ast.Return(ast.Call(f, [load(x) for x in (names if cls is None else names[1:])], []))]
        return [h, n]


@t
class demorgan(Funcs):
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
        return n


@t
class nest(Funcs):
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            vs = n.test.values
            inner = n.body
            for v in vs[::-1]:
                inner = [ast.If(v, inner, [])]
            return inner[0]
        return n


@t
class flip(Funcs):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n


@t
class unchain(Funcs):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 2:
            return ast.BoolOp(ast.And(), [ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]), ast.Compare(copy.deepcopy(n.comparators[0]), [n.ops[1]], [n.comparators[1]])])
        return n


def ends(b):
    return b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue))


@t
class early(Funcs):
    """statements after a returning branch go to its else, and the other way round"""
    def visit_If(self, n):
        self.generic_visit(n)
        if ends(n.body) and n.orelse:
            rest, n.orelse = n.orelse, []
            return [n] + rest
        return n


@t
class late(Funcs):
    def visit_FunctionDef(self, n):
        n.body = self.block(n.body)
        return n

    def block(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and ends(s.body) and not s.orelse and b[i + 1:]:
                s.orelse = self.block(b[i + 1:])
                return b[:i + 1]
        return b


@t
class unpack(Funcs):
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple) and len(n.targets[0].elts) == len(n.value.elts):
            ks = [self.new() for _ in n.value.elts]
            return [ast.Assign([store(k)], v) for k, v in zip(ks, n.value.elts)] + [ast.Assign([x], load(k)) for x, k in zip(n.targets[0].elts, ks)]
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Call) and not any(isinstance(e, ast.Starred) for e in n.targets[0].elts):
            k = self.new("pair")
            return [ast.Assign([store(k)], n.value)] + [ast.Assign([x], ast.Subscript(load(k), C(i), ast.Load())) for i, x in enumerate(n.targets[0].elts)]
        return n


@t
class commute(Funcs):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult):
            n.left, n.right = n.right, n.left
        return n


@t
class asserts(Funcs):
    def visit_Assert(self, n):
        return ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Raise(ast.Call(load("AssertionError"), [n.msg] if n.msg else [], []), None)], [])


@t
class noop(Funcs):
    def visit(self, n):
        r = super().visit(n)
        if self.depth and isinstance(n, (ast.Assign, ast.If, ast.For, ast.Expr)):
            r = (r if isinstance(r, list) else [r]) + [ast.Assign([store("_unused")], C(None))]
        return r


@t
class alias(Base):
    def file(self, tree):
        for x in ast.walk(tree):
            if isinstance(x, N) and x.id in ("np", "plt"):
                x.id = {"np": "numpy", "plt": "pyplot"}[x.id]
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                for a in x.names:
                    if a.asname in ("np", "plt"):
                        a.asname = None
        return tree


@t
class powers(Funcs):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, C) and n.right.value == 2 and trivial(n.left):
            return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
        return n


@t
class sqrts(Funcs):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "sqrt" and isinstance(n.func.value, N) and n.func.value.id == "np" and len(n.args) == 1:
            return ast.BinOp(n.args[0], ast.Pow(), C(0.5))
        return n


@t
class subneg(Funcs):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Sub):
            return ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right))
        return n


@t
class consts(Funcs):
    """numbers become module constants"""
    def file(self, tree):
        self.names = {}
        r = self.visit(tree)
        i = max(j for j, s in enumerate(tree.body) if isinstance(s, (ast.Import, ast.ImportFrom)) or isinstance(s, ast.Expr) and j == 0) + 1
        tree.body[i:i] = [ast.Assign([store(k)], C(v)) for (ty, v), k in self.names.items()]
        return r

    def visit_Constant(self, n):
        if self.depth and type(n.value) in (int, float):
            return load(self.names.setdefault((type(n.value), n.value), "_NUMBER_%d" % len(self.names)))
        return n

    def visit_JoinedStr(self, n):
        return n


SIGS = {}


@t
class keywords(Funcs):
    """positional arguments of package functions are given by name"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, N) and n.func.id in SIGS and not any(isinstance(a, ast.Starred) for a in n.args):
            s = SIGS[n.func.id]
            n.keywords = [ast.keyword(s[i], a) for i, a in enumerate(n.args)] + n.keywords
            n.args = []
        return n


@t
class positional(Funcs):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, N) and n.func.id in SIGS:
            s = SIGS[n.func.id]
            kw = {k.arg: k.value for k in n.keywords}
            while len(n.args) < len(s) and s[len(n.args)] in kw and None not in kw:
                n.args.append(kw.pop(s[len(n.args)]))
            n.keywords = [ast.keyword(k, v) for k, v in kw.items()]
        return n


@t
class augment(Funcs):
    """x = x + y"""
    def visit_AugAssign(self, n):
        if isinstance(n.target, N):
            return ast.Assign([n.target], ast.BinOp(load(n.target.id), n.op, n.value))
        return n


@t
class star(Funcs):
    """arguments collected first, then passed with * and **"""
    def go(self, n):
        v = n.value
        if isinstance(v, ast.Call) and isinstance(v.func, N) and v.func.id in SIGS and v.keywords and not any(k.arg is None for k in v.keywords):
            k = self.new("options")
            d = ast.Call(load("dict"), [], v.keywords)
            v.keywords = [ast.keyword(None, load(k))]
            return [ast.Assign([store(k)], d), n]
        return n

    def visit_Assign(self, n): return self.go(n)
    def visit_Return(self, n): return self.go(n) if n.value is not None else n


@t
class formats(Funcs):
    """'{}'.format(x) becomes an f-string"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "format" and isinstance(n.func.value, C) and isinstance(n.func.value.value, str) and not n.keywords:
            import string
            out, i = [], 0
            for lit, field, spec, conv in string.Formatter().parse(n.func.value.value):
                if lit:
                    out.append(C(lit))
                if field is not None:
                    if field or conv or "{" in (spec or "") or i >= len(n.args):
                        return n
                    out.append(ast.FormattedValue(n.args[i], -1, ast.JoinedStr([C(spec)]) if spec else None))
                    i += 1
            return ast.JoinedStr(out)
        return n


@t
class npmethods(Funcs):
    """x.max() becomes np.max(x)"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("max", "min", "sum", "argmin") and not n.args and not n.keywords:
            return ast.Call(ast.Attribute(load("np"), n.func.attr, ast.Load()), [n.func.value], [])
        return n


@t
class wheres(Funcs):
    """a[np.where(m)] becomes a[m]"""
    def visit_Subscript(self, n):
        self.generic_visit(n)
        s = n.slice
        if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr == "where" and len(s.args) == 1:
            n.slice = s.args[0]
        return n


def texts_of(name):
    for f in FILES:
        for n in ast.parse(open(ROOT + "/petrofit/" + f).read()).body:
            if isinstance(n, ast.FunctionDef) and not n.decorator_list and not n.args.vararg and not n.args.kwarg:
                SIGS[n.name] = [x.arg for x in n.args.args]
    out = {}
    for f in FILES:
        tree = ast.parse(open(ROOT + "/petrofit/" + f).read())
        tree = T[name]().file(tree)
        out[f] = ast.unparse(ast.fix_missing_locations(tree)) + "\n"
        compile(out[f], f, "exec")
    return out


if __name__ == "__main__":
    if sys.argv[1:2] == ["--write"]:
        for f, s in texts_of(sys.argv[2]).items():
            open(os.path.join(sys.argv[3], "petrofit", f), "w").write(s)
        sys.exit()
    if sys.argv[1:2] == ["--list"]:
        print(*T)
        sys.exit()
    L.ALL = {k: None for k in T}
    L.texts = texts_of
    L.run()
