"""Names and signatures of the installed libraries, read from their sources (never imported)."""
import ast
import glob
import os
import sys

SITE = [p for p in glob.glob("/opt/venv/lib/python3*/site-packages")]
STD = [p for p in glob.glob("/usr/lib/python3.1[0-9]") + glob.glob("/usr/local/lib/python3.1[0-9]") if os.path.isdir(p)]
if os.path.dirname(os.__file__) not in STD:
    STD.append(os.path.dirname(os.__file__))


class Module:
    def __init__(self, name, tree, path, stub=None):
        self.name, self.tree, self.path = name, tree, path
        self.defs = {}        # name -> ast node (def, class) or ("import", module, name) or None (something assigned)
        self.stars = []
        self.open = False     # names may appear that the text does not show
        self.all = None
        for t in (tree, stub):
            if t is not None:
                self.scan(t)

    def pkg(self):
        return self.name if os.path.basename(self.path).startswith("__init__.") else self.name.rpartition(".")[0]

    def absolute(self, node):
        if not node.level:
            return node.module
        base = self.pkg().split(".")
        base = base[:len(base) - (node.level - 1)]
        return ".".join(base + ([node.module] if node.module else []))

    def scan(self, tree):
        for s in tree.body:
            self.stmt(s)

    def put(self, k, v):
        if k not in self.defs or self.defs[k] is None:
            self.defs[k] = v

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            if s.name == "__getattr__":
                self.open = True
            self.put(s.name, s)
        elif isinstance(s, ast.Import):
            for a in s.names:
                self.put(a.asname or a.name.split(".")[0], ("module", a.name if a.asname else a.name.split(".")[0]))
        elif isinstance(s, ast.ImportFrom):
            m = self.absolute(s)
            for a in s.names:
                if a.name == "*":
                    self.stars.append(m)
                else:
                    self.put(a.asname or a.name, ("import", m, a.name))
        elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in ts:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        v = s.value
                        if len(ts) == 1 and isinstance(t, ast.Name) and isinstance(v, ast.Name) and isinstance(s, ast.Assign):
                            self.put(n.id, ("alias", v.id))
                        else:
                            self.put(n.id, None)
                        if n.id == "__all__":
                            pass
                    elif isinstance(n, ast.Call) or isinstance(n, ast.Subscript):
                        if "globals" in ast.dump(n):
                            self.open = True
        elif isinstance(s, ast.Expr):
            d = ast.dump(s)
            if "globals" in d or "exec" in d or "setattr" in d or "__dict__" in d:
                self.open = True
        else:
            for f in ("body", "orelse", "finalbody"):
                for x in getattr(s, f, ()) or ():
                    self.stmt(x)
            for h in getattr(s, "handlers", ()):
                for x in h.body:
                    self.stmt(x)
            if isinstance(s, (ast.For, ast.With)):
                for n in ast.walk(s.target if isinstance(s, ast.For) else ast.Tuple([i.optional_vars for i in s.items if i.optional_vars], ast.Store())):
                    if isinstance(n, ast.Name):
                        self.put(n.id, None)
                if isinstance(s, ast.For) and any(w in ast.dump(s) for w in ("globals", "setattr", "exec", "locals")):
                    self.open = True


_mods = {}


def locate(name):
    rel = name.replace(".", "/")
    for root in SITE + STD:
        for suffix in ("/__init__.py", ".py", "/__init__.pyi", ".pyi"):
            p = os.path.join(root, rel + suffix)
            if os.path.isfile(p):
                return p
    return None


_comp = {}


def compiled(name):
    if name not in _comp:
        _comp[name] = compiled1(name)
    return _comp[name]


def compiled1(name):
    rel = name.replace(".", "/")
    for root in SITE + STD:
        if glob.glob(os.path.join(root, rel + ".*.so")) or glob.glob(os.path.join(root, rel + ".so")) or glob.glob(os.path.join(root, "lib-dynload", rel + ".*.so")):
            return True
    return name.split(".")[0] in sys.builtin_module_names


def module(name):
    """Module, or None when there is no source for it"""
    if name in _mods:
        return _mods[name]
    _mods[name] = None
    p = locate(name)
    if p is None:
        return None
    try:
        tree = ast.parse(open(p, encoding="utf-8").read())
        stub = None
        if p.endswith(".py") and os.path.isfile(p + "i"):
            stub = ast.parse(open(p + "i", encoding="utf-8").read())
    except (SyntaxError, ValueError, RecursionError):
        return None
    _mods[name] = Module(name, tree, p, stub)
    if stub is not None:
        _mods[name].open = False      # the stub lists the module's names
    return _mods[name]


def exists(name):
    """True / False / None for a module"""
    if name in ("builtins", "__future__", "sys") or module(name) is not None or compiled(name):
        return True
    top = name.split(".")[0]
    if "." not in name:
        for root in SITE + STD:
            if os.path.isdir(os.path.join(root, top)):
                return True
        return False
    if not exists(top):
        return False
    for root in SITE + STD:
        if os.path.isdir(os.path.join(root, name.replace(".", "/"))):
            return True
    par, _, last = name.rpartition(".")
    return None if lookup(par, last)[0] is not False else False


_busy = {}


def lookup(mod, name, depth=0):
    """(True, definition) / (False, None) / (None, None) for `mod.name`"""
    k = (mod, name)
    if k not in _busy:
        _busy[k] = (False, None)      # a cycle of imports adds no name
        r = _busy[k] = lookup1(mod, name, depth)
        if depth and r[0] is not True:
            del _busy[k]              # computed with a cycle cut open
        return r
    return _busy[k]


def lookup1(mod, name, depth):
    m = module(mod)
    if m is None:
        return None, None
    if name in m.defs:
        d = m.defs[name]
        if isinstance(d, tuple) and d[0] == "import":
            r = lookup(d[1], d[2], depth + 1)
            if not r[0] and locate(d[1] + "." + d[2]):
                return True, ("module", d[1] + "." + d[2])
            return (True, r[1] if r[0] else None)
        if isinstance(d, tuple) and d[0] == "alias":
            r = lookup(mod, d[1], depth + 1)
            return True, r[1] if r[0] else None
        if d is None:
            return True, None
        return True, (d if isinstance(d, tuple) else (m, d))
    if name in ("__name__", "__file__", "__doc__", "__path__", "__package__", "__dict__", "__all__", "__version__", "__spec__", "__loader__"):
        return True, None
    unknown = m.open
    for s in m.stars:
        r = lookup(s, name, depth + 1)
        if r[0]:
            return r
        if r[0] is None:
            unknown = True
    if os.path.basename(m.path).startswith("__init__."):
        sub = mod + "." + name
        if module(sub) is not None or compiled(sub):
            return True, ("module", sub)
        for root in SITE + STD:
            if os.path.isdir(os.path.join(root, sub.replace(".", "/"))):
                return True, ("module", sub)
    if not m.defs and not m.stars:
        return None, None
    return (None, None) if unknown else (False, None)


def resolve(dotted):
    """definition of a dotted name: (status, definition)"""
    parts = dotted.split(".")
    cur = parts[0]
    st = exists(cur)
    if not st:
        return st, None
    d = ("module", cur)
    for i, p in enumerate(parts[1:], 1):
        if isinstance(d, tuple) and d[0] == "module":
            st, d = lookup(d[1], p)
            if st is not True:
                return st, None
        elif isinstance(d, tuple) and isinstance(d[1], ast.ClassDef):
            st = member(d, p)
            return st, None
        else:
            return None, None
        if d is None and i < len(parts) - 1:
            return None, None
    return True, d


_members = {}


def members(cd):
    """(names, complete) of a library class: (Module, ClassDef)"""
    m, c = cd
    key = (m.name, c.name, c.lineno)
    if key in _members:
        return _members[key]
    _members[key] = (frozenset(), False)
    names, complete = set(dir(object)), True
    for n in ast.walk(c):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
            names.add(n.attr)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and not m.name.startswith("matplotlib."):
            complete = False
    for s in c.body:
        for n in ast.walk(s) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else ():
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            names.add(s.target.id)
    if {f.name for f in c.body if isinstance(f, ast.FunctionDef)} & {"__getattr__", "__getattribute__"}:
        complete = False
    for d in c.decorator_list:
        t = ast.unparse(d)
        if "define_aliases" in t:
            try:
                table = ast.literal_eval(d.args[0])
                for a in [k for k in table] + [a for v in table.values() for a in v]:
                    names |= {"get_" + a, "set_" + a}
            except (ValueError, AttributeError, IndexError, TypeError):
                names.add("get_*")
                names.add("set_*")
        elif not ("docstring" in t or t in ("dataclass", "final", "dataclasses.dataclass")):
            complete = False
    if [k for k in c.keywords if k.arg == "metaclass" and ast.unparse(k.value) not in ("abc.ABCMeta", "ABCMeta")]:
        complete = False
    for b in c.bases:
        r = None
        if isinstance(b, ast.Name):
            r = lookup(m.name, b.id)
            if r[0] is not True and b.id == "object":
                continue
        elif isinstance(b, ast.Attribute):
            txt = ast.unparse(b)
            head = txt.split(".")[0]
            d = lookup(m.name, head)
            if d[0] and isinstance(d[1], tuple) and d[1][0] == "module":
                r = resolve(d[1][1] + txt[len(head):])
        elif isinstance(b, ast.Call):
            # a base made by a function of the bases it is given
            complete = False
            continue
        if r is None or not r[0] or not isinstance(r[1], tuple) or r[1][0] == "module" or not isinstance(r[1][1], ast.ClassDef):
            complete = False
            continue
        n2, c2 = members(r[1])
        names |= n2
        complete = complete and c2
    _members[key] = (frozenset(names), complete)
    return _members[key]


def member(cd, name):
    names, complete = members(cd)
    if name[:4] + "*" in names and name not in names:
        return None
    return True if name in names else False if complete else None


def signature(cd):
    """ast.arguments of a plain library function (or None)"""
    m, d = cd
    if not isinstance(d, ast.FunctionDef):
        return None
    for dec in d.decorator_list:
        t = ast.unparse(dec)
        if not any(w in t for w in ("array_function_dispatch", "set_module", "_copy_docstring", "deprecate", "quantity_input", "wraps", "overload", "docstring")) or "overload" in t or "quantity_input" in t or "deprecate" in t:
            return None
    return d.args


def fits(args, npos, keys, drop=0):
    """None when a call with npos positional arguments and these keywords can be bound, else what is wrong"""
    pos = [a.arg for a in args.posonlyargs + args.args][drop:]
    kwonly = [a.arg for a in args.kwonlyargs]
    if npos > len(pos) and args.vararg is None:
        return "takes %d positional arguments, %d given" % (len(pos), npos)
    given = set(pos[:npos])
    for k in keys:
        if k in given:
            return "two values for %s" % k
        if k not in pos and k not in kwonly and args.kwarg is None:
            return "no argument named %s" % k
    nd = len(args.defaults)
    need = pos[:len(pos) - nd] if nd else pos
    missing = [p for i, p in enumerate(need) if i >= npos and p not in keys]
    missing += [a for a, d in zip(kwonly, args.kw_defaults) if d is None and a not in keys]
    if missing:
        return "missing %s" % ", ".join(missing)
    return None
