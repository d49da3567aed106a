"""Abstract interpreter: gated value numbering of Python source (never imports or runs the analysed code).

Every expression is mapped to a value number (terms.Term) or an abstract object; control-flow joins produce
gated values guarded by the branch condition; calls to functions of the analysed package are resolved and
inlined context-sensitively; calls that leave the package become canonical call terms (ext.py).  Loops over
unknown sequences are summarised as maps, sums, quantifiers or searches over an index.
"""
import ast
import os
from .terms import *
from . import clock, terms as T
from . import arrays as A
from .arrays import getitem, store, slc, concat, length, full
from .facts import Facts
from .values import *

MAXDEPTH = 40
UNROLL = 40


class Source:
    """The files under analysis (text is read from disk on every run)."""

    def __init__(self, root, package="petrofit", override=None):
        self.root, self.package = root, package
        self.files = {}
        base = os.path.join(root, package)
        for d, dirs, fs in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ("tests", "__pycache__"))
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)
                    mod = rel[:-3].replace(os.sep, ".")
                    if mod.endswith(".__init__"):
                        mod = mod[:-9]
                    if os.path.basename(f) in ("conftest.py",):
                        continue
                    text = open(p, encoding="utf-8").read()
                    if override and rel in override:
                        text = override[rel]
                    self.files[mod] = (rel, text)
        self.trees = {}

    def tree(self, mod):
        if mod not in self.trees:
            self.trees[mod] = ast.parse(self.files[mod][1])
        return self.trees[mod]


class State:
    __slots__ = ("env", "heap", "pc")

    def __init__(self, env=None, heap=None, pc=()):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.pc = pc

    def fork(self, g):
        return State({k: dict(v) for k, v in self.env.items()}, dict(self.heap), self.pc + (g,) if g is not TRUE else self.pc)


class Frame:
    def __init__(self, fid, func, node):
        self.fid, self.func, self.node = fid, func, node
        self.rets = []
        self.loop = None
        self.globals_ = set()
        self.nonlocals = {}
        self.cls = None
        self.selfv = None
        self.yields = None


class Loop:
    def __init__(self):
        self.breaks, self.conts = [], []


class Event:
    """something the analysed code does besides computing a value"""
    __slots__ = ("kind", "data", "pc", "site", "func", "stack", "state")

    def __init__(self, kind, data, pc, site, func, stack, state=None):
        self.kind, self.data, self.pc, self.site, self.func, self.stack, self.state = kind, data, pc, site, func, stack, state

    def __repr__(self):
        return "<%s %r @%s>" % (self.kind, self.data, self.site)


class Interp:
    def __init__(self, source, opts=None):
        from . import ext
        self.ext = ext
        self.src = source
        self.opts = opts or {}
        self.nfigs = 0
        self.st = State()
        self.nloc = 0
        self.nfid = 0
        self.frames = []
        self.handlers = [[]]     # stack of lists of (state, exception value, site)
        self.events = []
        self.quiet = 0
        self.modules = {}        # mod name -> frame id
        self.modstack = []
        self.origin = {}         # loc -> tuple
        self.viewlocs = {}       # loc -> location it may share memory with
        self.dtypes = {}         # loc -> dtype tag
        self.prov = {}
        self.site = ("?", 0, "?")
        self.calls = 0
        self.inlined = {}        # function qualname -> count
        self.objattrs = self.opts.get("objattrs", {})
        self.factcache = {}
        self.level = 0
        self.unsup = []
        self.budget = self.opts.get("budget", 400000)
        self.tryraise = []
        self.curloop_bounds = []
        self.parent = {}

    # ------------------------------------------------------------ basics
    def event(self, kind, data, site=None):
        if self.quiet:
            return
        self.events.append(Event(kind, data, self.st.pc if self.st else (), site or self.site,
                                 self.frames[-1].func if self.frames else "<module>",
                                 tuple(f.func for f in self.frames)))

    def new(self, content, origin=None):
        self.nloc += 1
        self.st.heap[self.nloc] = content
        if origin is not None:
            self.origin[self.nloc] = origin
        return VRef(self.nloc)

    def facts(self):
        pc = self.st.pc
        f = self.factcache.get(pc)
        if f is None:
            base = None
            if pc:
                base = self.factcache.get(pc[:-1])
            if base is not None:
                f = base.copy()
                f.add(pc[-1])
            else:
                f = Facts(pc)
            if len(self.factcache) > 20000:
                self.factcache.clear()
            self.factcache[pc] = f
        return f

    def dset(self, c, k, v):
        """a dictionary with one more entry; keys that might be the same key are not modelled"""
        for kk, _ in c.items:
            if kk is not k and eq(k, kk) is not FALSE:
                r = self.decide(eq(k, kk))
                if r:
                    return c.set(kk, v)
                if r is None:
                    raise Unsupported("dictionary keys that may coincide")
        return c.set(k, v)

    def apart(self, c):
        """the members of a set, known to differ"""
        ts = [self.t(x) for x in c.items]
        for i, x in enumerate(ts):
            for y in ts[:i]:
                if x is y or eq(x, y) is not FALSE and self.decide(eq(x, y)) is not False:
                    raise Unsupported("set members that may coincide")
        return c.items

    def decide(self, g):
        if g is TRUE:
            return True
        if g is FALSE:
            return False
        r = self.facts().query(g)
        if r is None:
            # is one branch inconsistent with what is known?
            f = self.facts().copy()
            f.add(g)
            if not f.consistent():
                return False
            f = self.facts().copy()
            f.add(not_(g))
            if not f.consistent():
                return True
        return r

    def resolve(self, v):
        while isinstance(v, VGamma):
            r = self.decide(v.cond)
            if r is True:
                v = v.a
            elif r is False:
                v = v.b
            elif v.a is UNDEF or v.b is UNDEF:
                return v
            else:
                return v
        return v

    # ------------------------------------------------------------ merging
    def mergeval(self, g, a, b):
        if a is b:
            return a
        if isinstance(a, Term) and isinstance(b, Term):
            if _mergeable(a) and _mergeable(b):
                return ite(g, a, b)
            return VGamma(g, a, b)
        if isinstance(a, VRef) and isinstance(b, VRef):
            if a.loc == b.loc and a.parent is b.parent and a.path is b.path:
                return a
            return VGamma(g, a, b)
        if isinstance(a, VTuple) and isinstance(b, VTuple) and len(a.items) == len(b.items):
            return VTuple([self.mergeval(g, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, VFunc) and isinstance(b, VFunc) and a.node is b.node and a.env == b.env:
            return a
        if isinstance(a, VExt) and isinstance(b, VExt) and a.name == b.name:
            return a
        if isinstance(a, VMod) and isinstance(b, VMod) and a.name == b.name:
            return a
        if isinstance(a, VMeth) and isinstance(b, VMeth) and a.name == b.name:
            return VMeth(self.mergeval(g, a.obj, b.obj), a.name)
        if isinstance(a, VBound) and isinstance(b, VBound) and a.func is b.func:
            return VBound(self.mergeval(g, a.obj, b.obj), a.func)
        return VGamma(g, a, b)

    def mergecontent(self, g, a, b):
        if a is b:
            return a
        if isinstance(a, Term) and isinstance(b, Term):
            return ite(g, a, b)
        if isinstance(a, ListC) and isinstance(b, ListC) and len(a.items) == len(b.items):
            return ListC([self.mergeval(g, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, DictC) and isinstance(b, DictC):
            keys = [k for k, _ in a.items] + [k for k, _ in b.items if a.get(k) is None]
            out = []
            for k in keys:
                x, y = a.get(k), b.get(k)
                out.append((k, self.mergeval(g, UNDEF if x is None else x, UNDEF if y is None else y)))
            return DictC(out)
        if isinstance(a, InstC) and isinstance(b, InstC) and a.cls is b.cls:
            keys = list(a.attrs) + [k for k in b.attrs if k not in a.attrs]
            return InstC(a.cls, {k: self.mergeval(g, a.attrs.get(k, UNDEF), b.attrs.get(k, UNDEF)) for k in keys})
        return GammaC(g, a, b)

    def merge(self, g, s1, s2):
        """state after a branch on g"""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        n = 0
        while n < len(s1.pc) and n < len(s2.pc) and s1.pc[n] is s2.pc[n]:
            n += 1
        c = or_(and_(*s1.pc[n:]), and_(*s2.pc[n:]))
        # literals common to both sides
        common = [l for l in s1.pc[n:] if l in s2.pc[n:]]
        pc = s1.pc[:n]
        for l in common:
            pc = pc + (l,)
        if not common and c is not TRUE and c.op != "and":
            if len(T.subterms(c)) < 400:
                pc = pc + (c,)
        env = {}
        for f in s1.env:
            if f not in s2.env:
                env[f] = s1.env[f]
                continue
            d1, d2 = s1.env[f], s2.env[f]
            d = {}
            for k in d1:
                d[k] = self.mergeval(g, d1[k], d2.get(k, UNDEF)) if k in d2 or True else d1[k]
            for k in d2:
                if k not in d1:
                    d[k] = self.mergeval(g, UNDEF, d2[k])
            env[f] = d
        for f in s2.env:
            if f not in env:
                env[f] = s2.env[f]
        heap = dict(s2.heap)
        for l, c1 in s1.heap.items():
            c2 = s2.heap.get(l)
            heap[l] = c1 if c2 is None or c2 is c1 else self.mergecontent(g, c1, c2)
        return State(env, heap, pc)

    def merge_many(self, outs, prefix):
        """outs: list of (state, value) in program order whose path conditions extend prefix"""
        outs = [o for o in outs if o[0] is not None]
        if not outs:
            return None, None
        st, val = outs[-1]
        for s, v in reversed(outs[:-1]):
            g = and_(*s.pc[len(prefix):])
            f = Facts(prefix)
            val = self.mergeval(g, v, val)
            st = self.merge(g, s, st)
        return st, val

    # ------------------------------------------------------------ terms of values
    def t(self, v):
        """value number of an abstract value"""
        if isinstance(v, Term):
            return v
        if isinstance(v, VRef):
            return self.content_term(v)
        if isinstance(v, VTuple):
            return mk("tuple", tuple(self.t(x) for x in v.items))
        if isinstance(v, VGamma):
            v2 = self.resolve(v)
            if not isinstance(v2, VGamma):
                return self.t(v2)
            return ite(v2.cond, self.t(v2.a), self.t(v2.b))
        if isinstance(v, VExt):
            return mk("ext", v.name)
        if isinstance(v, VMod):
            return mk("ext", v.name)
        if isinstance(v, VClass):
            return mk("cls", v.qual)
        if isinstance(v, VFunc):
            if isinstance(v.node, ast.Lambda):
                return mk("lambda", v.qual, v.node.lineno)
            return mk("func", v.qual)
        if isinstance(v, VBound):
            return mk("boundm", self.t(v.obj), self.t(v.func))
        if isinstance(v, VMeth):
            return mk("attr", self.t(v.obj), v.name)
        if isinstance(v, VDeco):
            return mk("deco", self.t(v.func), self.t(v.deco))
        if isinstance(v, VPartial):
            return mk("partial", self.t(v.func), tuple(self.t(a) for a in v.args),
                      tuple((k, self.t(x)) for k, x in v.kwargs))
        if v is UNDEF:
            return mk("undef")
        if isinstance(v, VStatic):
            return self.t(v.func)
        if isinstance(v, (VProp, VSuper)):
            return mk("opaque", type(v).__name__)
        raise Unsupported("value %r" % (v,))

    def rd(self, ref):
        """content of a reference"""
        if ref.loc is not None:
            return self.st.heap[ref.loc]
        p = self.rd(ref.parent)
        if ref.path[0] == "dict":
            while isinstance(p, GammaC) and self.decide(p.cond) is not None:
                p = p.a if self.decide(p.cond) else p.b
            if isinstance(p, InstC):
                return DictC([(const(k), v) for k, v in p.attrs.items()])
        return self.subcontent(p, ref.path)

    def subcontent(self, c, path):
        c = self.cterm(c)
        k = path[0]
        if k == "idx":
            return getitem(c, path[1])
        if k == "attr":
            return self.ext.attr_term(self, c, path[1])
        if k == "id":
            return c
        raise Unsupported("path")

    def cterm(self, c):
        if isinstance(c, Term):
            return c
        if isinstance(c, ListC):
            return mk("vec", tuple(self.t(x) for x in c.items))
        if isinstance(c, SetC):
            return mk("set", tuple(sorted((self.t(x) for x in c.items), key=lambda t: t.id)))
        if isinstance(c, DictC):
            return mk("dict", tuple((k, self.t(v)) for k, v in c.items))
        if isinstance(c, InstC):
            return mk("inst", c.cls.qual, tuple((k, self.t(v)) for k, v in sorted(c.attrs.items(), key=lambda kv: kv[0])
                                                if not k.startswith("__")))
        if isinstance(c, GammaC):
            r = self.decide(c.cond)
            if r is True:
                return self.cterm(c.a)
            if r is False:
                return self.cterm(c.b)
            return ite(c.cond, self.cterm(c.a), self.cterm(c.b))
        raise Unsupported("content %r" % (c,))

    def content_term(self, ref):
        key = getattr(self, "_ct", None)
        if key is None:
            key = self._ct = set()
        if ref.loc is not None and ref.loc in key:
            return mk("cyclic", ref.loc)
        if ref.loc is not None:
            key.add(ref.loc)
        try:
            return self.cterm(self.rd(ref))
        finally:
            if ref.loc is not None:
                key.discard(ref.loc)

    def content(self, v):
        """resolved content of a reference (ListC/DictC/InstC/Term) or None"""
        if isinstance(v, VRef):
            c = self.rd(v)
            while isinstance(c, GammaC):
                r = self.decide(c.cond)
                if r is True:
                    c = c.a
                elif r is False:
                    c = c.b
                else:
                    break
            return c
        return None

    def root(self, ref):
        while ref.loc is None:
            ref = ref.parent
        return ref

    def write(self, ref, content, what="store"):
        """replace the content of a reference, reporting the mutation of its root"""
        r = self.root(ref)
        o = self.origin.get(r.loc)
        if o is not None:
            self.event("mutate", (o, what))
        if r.loc in self.viewlocs:
            raise Unsupported("store through a view (%s)" % what)
        self._write(ref, content)

    def _write(self, ref, content):
        if ref.loc is not None:
            self.st.heap[ref.loc] = content
            return
        if ref.path[0] == "dict":
            p = self.content(ref.parent)
            if isinstance(p, InstC) and isinstance(content, DictC) and all(k.op == "const" for k, _ in content.items):
                self._write(ref.parent, InstC(p.cls, {k.args[0]: v for k, v in content.items}))
                return
            raise Unsupported("__dict__ store")
        p = self.cterm(self.rd(ref.parent))
        k = ref.path[0]
        ct = self.cterm(content)
        if k == "idx":
            self._write(ref.parent, store(p, ref.path[1], ct))
        elif k == "attr":
            self._write(ref.parent, mk("setattr", p, ref.path[1], ct))
        elif k == "id":
            self._write(ref.parent, ct)

    def bind(self, v):
        """give an identity to values that may be mutable arrays/objects"""
        if isinstance(v, Term) and not _immutable(v):
            return self.new(v)
        return v

    # ------------------------------------------------------------ gated values
    def case(self, v, f):
        """apply f to every alternative of a gated value; f(value) -> value"""
        v = self.resolve(v)
        if not isinstance(v, VGamma):
            return f(v)
        return self.branch(v.cond, lambda: self.case(v.a, f), lambda: self.case(v.b, f))

    def branch(self, g, fa, fb):
        r = self.decide(g)
        if r is True:
            return fa()
        if r is False:
            return fb()
        s0 = self.st
        va = vb = None
        self.st = s0.fork(g)
        try:
            va = fa()
            sa = self.st
        except DeadPath:
            sa = None
        self.st = s0.fork(not_(g))
        try:
            vb = fb()
            sb = self.st
        except DeadPath:
            sb = None
        if sa is None and sb is None:
            self.st = None
            raise DeadPath()
        self.st = self.merge(g, sa, sb)
        if sa is None:
            return vb
        if sb is None:
            return va
        return self.mergeval(g, va, vb)

    # ------------------------------------------------------------ truth
    def truth(self, v):
        v = self.resolve(v)
        if isinstance(v, VGamma):
            return ite(v.cond, self.truth(v.a), self.truth(v.b))
        if isinstance(v, VTuple):
            return boolc(len(v.items) > 0)
        if isinstance(v, VRef):
            c = self.content(v)
            if isinstance(c, (ListC, DictC, SetC)):
                return boolc(len(c.items) > 0)
            if isinstance(c, InstC):
                for m in ("__bool__", "__len__"):
                    if self.classattr(c.cls, m) is not None:
                        return self.truth(self.callv(self.getattr(v, m), [], {}))
                return TRUE
            return truth_term(self.cterm(c))
        if isinstance(v, Term):
            return truth_term(v)
        return TRUE

    # ------------------------------------------------------------ raising
    def do_raise(self, exc, site=None):
        self.handlers[-1].append((self.st, exc, site or self.site, tuple(f.func for f in self.frames)))
        self.st = None
        raise DeadPath()

    def raise_if(self, g, exc):
        """the operation raises exc when g holds; execution continues otherwise"""
        r = self.decide(g)
        if r is False:
            return
        if r is True:
            self.do_raise(exc)
        self.handlers[-1].append((self.st.fork(g), exc, self.site, tuple(f.func for f in self.frames)))
        self.st = self.st.fork(not_(g))

    def exc(self, name, *args):
        return mk("exc", name, tuple(args))

    # ------------------------------------------------------------ modules
    def load(self, mod):
        """execute a module of the package abstractly; returns its frame id"""
        if mod in self.modules:
            return self.modules[mod]
        if mod not in self.src.files:
            return None
        self.nfid += 1
        fid = self.nfid
        self.modules[mod] = fid
        self.st.env[fid] = {"__name__": const(mod), "__file__": const(self.src.files[mod][0])}
        fr = Frame(fid, "<module %s>" % mod, None)
        fr.mod = mod
        self.frames.append(fr)
        saved = self.site
        try:
            self.run_block(self.src.tree(mod).body)
        finally:
            self.frames.pop()
            self.site = saved
        env = self.st.env[fid]
        for k, v in env.items():
            if isinstance(v, VRef) and v.loc is not None and v.loc not in self.origin:
                self.origin[v.loc] = ("global", mod, k)
        return fid

    def curmod(self):
        return self.frames[-1].mod

    # ------------------------------------------------------------ names
    def lookup(self, name):
        fr = self.frames[-1]
        fid = fr.fid
        while fid is not None:
            d = self.st.env.get(fid)
            if d is not None and name in d:
                if not (name in fr.globals_ and fid == fr.fid):
                    return d[name]
            fid = self.parent.get(fid) if fid in self.parent else None
        m = self.modules.get(fr.mod)
        d = self.st.env.get(m, {})
        if name in d:
            return d[name]
        return None



    def load_name(self, node):
        v = self.lookup(node.id)
        if v is None:
            b = self.ext.builtin(node.id)
            if b is not None:
                return b
            self.event("undefined-name", node.id)
            self.do_raise(self.exc("NameError", const(node.id)))
        v = self.resolve(v)
        if v is UNDEF:
            self.event("undefined-name", node.id)
            self.do_raise(self.exc("UnboundLocalError", const(node.id)))
        if isinstance(v, VGamma):
            v = self.strip_undef(v, node.id)
        return v

    def strip_undef(self, v, name):
        if isinstance(v, VGamma):
            if v.a is UNDEF:
                self.raise_if(v.cond, self.exc("UnboundLocalError", const(name)))
                return self.strip_undef(v.b, name)
            if v.b is UNDEF:
                self.raise_if(not_(v.cond), self.exc("UnboundLocalError", const(name)))
                return self.strip_undef(v.a, name)
            if _hasundef(v):
                return self.case(v, lambda x: self.strip_undef(x, name) if x is not UNDEF else
                                 self.do_raise(self.exc("UnboundLocalError", const(name))))
        return v

    def store_name(self, name, v):
        fr = self.frames[-1]
        if name in fr.globals_:
            fid = self.modules[fr.mod]
            self.event("mutate", (("global", fr.mod, name), "rebind"))
        elif name in fr.nonlocals:
            fid = fr.nonlocals[name]
        else:
            fid = fr.fid
        self.st.env[fid][name] = self.bind(v)

    # ------------------------------------------------------------ statements
    def run_block(self, stmts):
        for s in stmts:
            if self.st is None:
                return
            try:
                self.stmt(s)
            except DeadPath:
                self.st = None

    def at(self, node):
        if hasattr(node, "lineno") and self.frames:
            fr = self.frames[-1]
            self.site = (self.src.files[fr.mod][0] if fr.mod in self.src.files else fr.mod, node.lineno, fr.func)

    def stmt(self, s):
        self.budget -= 1
        if self.budget < 0:
            raise Unsupported("analysis budget exhausted")
        if not self.budget & 15 and clock.over():
            raise Unsupported("out of time")
        self.at(s)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s at %s" % (type(s).__name__, self.site))
        m(s)

    def s_Pass(self, s):
        pass

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.do_yield(s.value)
            return
        self.ev(s.value)

    def do_yield(self, node):
        fr = self.frames[-1]
        lst = self.st.env[fr.fid].get("$yield")
        if lst is None:
            raise Unsupported("yield")
        if isinstance(node, ast.YieldFrom):
            self.callv(self.getattr(lst, "extend"), [self.ev(node.value)], {})
        else:
            v = self.ev(node.value) if node.value else NONE
            self.callv(self.getattr(lst, "append"), [v], {})

    def s_Import(self, s):
        for a in s.names:
            if a.name.split(".")[0] == self.src.package:
                self.load(a.name)
                self.store_name(a.asname or a.name.split(".")[0], VMod(a.name if a.asname else a.name.split(".")[0]))
            elif a.asname:
                self.store_name(a.asname, VMod(a.name))
            else:
                self.store_name(a.name.split(".")[0], VMod(a.name.split(".")[0]))

    def s_ImportFrom(self, s):
        fr = self.frames[-1]
        base = s.module or ""
        if s.level:
            cur = fr.mod
            isinit = self.src.files[cur][0].endswith("__init__.py") if cur in self.src.files else False
            parts = cur.split(".")
            up = s.level - (1 if isinit else 0)
            parts = parts[:len(parts) - up] if up else parts
            base = ".".join(parts + ([s.module] if s.module else []))
        internal = base.split(".")[0] == self.src.package
        for a in s.names:
            if internal:
                if a.name == "*":
                    fid = self.load(base)
                    if fid is None:
                        continue
                    d = self.st.env[fid]
                    allv = d.get("__all__")
                    names = None
                    if allv is not None:
                        c = self.content(allv)
                        items = c.items if isinstance(c, ListC) else allv.items if isinstance(allv, VTuple) else None
                        if items is not None:
                            names = [x.args[0] for x in items if isinstance(x, Term) and x.op == "const"]
                    for k in (names if names is not None else [k for k in d if not k.startswith("_")]):
                        if k in d:
                            self.st.env[fr.fid][k] = d[k]
                        else:
                            self.event("undefined-export", (base, k))
                    continue
                sub_ = base + "." + a.name
                if sub_ in self.src.files and not (base in self.modules and a.name in self.st.env.get(self.modules[base], {})):
                    self.load(sub_)
                    self.store_name(a.asname or a.name, VMod(sub_))
                    continue
                fid = self.load(base)
                if fid is None:
                    self.event("unresolved-import", (base, a.name))
                    self.handlers[-1].append((self.st, self.exc("ImportError", const(base)), self.site, ()))
                    continue
                v = self.st.env[fid].get(a.name)
                if v is None:
                    self.event("unresolved-import", (base, a.name))
                    v = mk("opaque", base + "." + a.name)
                self.st.env[fr.fid][a.asname or a.name] = v
            else:
                v = self.ext.member(self, base, a.name)
                self.st.env[fr.fid][a.asname or a.name] = v

    def s_Global(self, s):
        self.frames[-1].globals_.update(s.names)

    def s_Nonlocal(self, s):
        fr = self.frames[-1]
        for n in s.names:
            fid = self.parent.get(fr.fid)
            while fid is not None and n not in self.st.env.get(fid, {}):
                fid = self.parent.get(fid)
            if fid is not None:
                fr.nonlocals[n] = fid

    def s_FunctionDef(self, s):
        v = self.mkfunc(s)
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            v = self.decorate(dv, v)
        self.store_name(s.name, v)

    s_AsyncFunctionDef = s_FunctionDef

    def decorate(self, dv, v):
        if isinstance(dv, VExt):
            if dv.name == "builtins.property":
                return VProp(v)
            if dv.name in ("builtins.staticmethod", "builtins.classmethod"):
                return VStatic(v, dv.name.split(".")[1])
            if dv.name in ("functools.wraps",):
                return v
            return VDeco(v, dv)
        if isinstance(dv, VMeth) and isinstance(dv.obj, VProp):
            p = dv.obj
            if dv.name == "setter":
                return VProp(p.fget, v, p.fdel)
            if dv.name == "deleter":
                return VProp(p.fget, p.fset, v)
            if dv.name == "getter":
                return VProp(v, p.fset, p.fdel)
        if isinstance(dv, Term) and dv.op in ("call", "xcall") and dv.args[0].startswith("functools.wraps"):
            return v
        if isinstance(dv, (VFunc, VBound, VPartial)):
            return self.callv(dv, [v], {})
        return VDeco(v, dv)

    def mkfunc(self, s, name=None):
        fr = self.frames[-1]
        a = s.args
        defaults = []
        allp = a.posonlyargs + a.args
        for p, d in zip(allp[len(allp) - len(a.defaults):], a.defaults):
            v = self.bind(self.ev(d))
            if isinstance(v, VRef) and v.loc is not None and v.loc not in self.origin:
                self.origin[v.loc] = ("default", (name or getattr(s, "name", "<lambda>")), p.arg)
            defaults.append(v)
        kwd = {}
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                v = self.bind(self.ev(d))
                if isinstance(v, VRef) and v.loc is not None and v.loc not in self.origin:
                    self.origin[v.loc] = ("default", (name or getattr(s, "name", "<lambda>")), p.arg)
                kwd[p.arg] = v
        nm = name or getattr(s, "name", "<lambda>")
        prefix = fr.mod
        if fr.cls:
            prefix += "." + fr.cls
        elif fr.node is not None:
            prefix = fr.func
        isglobal = fr.node is None and fr.cls is None
        env = fr.fid if (fr.node is not None) else None
        f = VFunc(s, fr.mod, env, defaults, kwd, None, prefix + "." + nm)
        return f

    def s_ClassDef(self, s):
        fr = self.frames[-1]
        bases = [self.ev(b) for b in s.bases]
        self.nfid += 1
        fid = self.nfid
        self.st.env[fid] = {}
        cf = Frame(fid, fr.mod + "." + s.name, None)
        cf.mod, cf.cls, cf.node = fr.mod, s.name, None
        self.parent[fid] = fr.fid
        self.frames.append(cf)
        try:
            self.run_block(s.body)
        finally:
            self.frames.pop()
        attrs = self.st.env.pop(fid)
        c = VClass(s.name, bases, fr.mod, fid, s, fr.mod + "." + s.name)
        for k, v in attrs.items():
            f = v
            if isinstance(f, VStatic):
                f = f.func
            for g in ([f.fget, f.fset] if isinstance(f, VProp) else [f]):
                if isinstance(g, VFunc):
                    g.cls = c
            if isinstance(v, VRef) and v.loc is not None and v.loc not in self.origin:
                self.origin[v.loc] = ("class", c.qual, k)
        # class attributes live on the heap so that stores through the class are seen
        ref = self.new(InstC(c, attrs), ("class", c.qual, None))
        c.env = ref
        v = c
        for d in reversed(s.decorator_list):
            v = self.decorate(self.ev(d), v)
        self.store_name(s.name, v)

    def clsattrs(self, c):
        return self.st.heap[c.env.loc].attrs

    def classattr(self, c, name):
        for k in c.mro():
            d = self.clsattrs(k)
            if name in d:
                return d[name]
        return None

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        fr = self.frames[-1]
        fr.rets.append((self.st, v))
        self.st = None

    def s_Delete(self, s):
        for t_ in s.targets:
            if isinstance(t_, ast.Name):
                self.st.env[self.frames[-1].fid].pop(t_.id, None)
            elif isinstance(t_, ast.Subscript):
                base = self.ev(t_.value)
                idx = self.index(t_.slice)
                self.case(base, lambda b: self.delitem(b, idx))
            elif isinstance(t_, ast.Attribute):
                base = self.ev(t_.value)
                self.case(base, lambda b: self.delattr(b, t_.attr))
            elif isinstance(t_, (ast.Tuple, ast.List)):
                for e in t_.elts:
                    self.s_Delete(ast.Delete(targets=[e]))

    def delattr(self, b, name):
        c = self.content(b)
        if isinstance(c, InstC):
            a = dict(c.attrs)
            if name not in a or a[name] is UNDEF:
                self.event("del-missing", name)
            a.pop(name, None)
            self.write(b, InstC(c.cls, a), "del ." + name)
        return NONE

    def delitem(self, b, idx):
        c = self.content(b)
        i = self.t(idx)
        if isinstance(c, DictC):
            if c.get(i) is None and all(k.op == "const" for k, _ in c.items) and i.op == "const":
                self.do_raise(self.exc("KeyError", i))
            self.write(b, c.drop(i), "del[]")
        elif isinstance(c, ListC) and i.op == "num":
            it = list(c.items)
            del it[int(numval(i))]
            self.write(b, ListC(it), "del[]")
        elif isinstance(b, VRef):
            self.write(b, self.ext.dict_del(self.cterm(c), i), "del[]")
        return NONE

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t_ in s.targets:
            self.assign(t_, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def assign(self, target, v):
        if isinstance(target, ast.Name):
            self.store_name(target.id, v)
        elif isinstance(target, (ast.Tuple, ast.List)):
            self.unpack(target, v)
        elif isinstance(target, ast.Subscript):
            base = self.ev(target.value)
            idx = self.index(target.slice)
            v = self.bind(v)
            self.case(base, lambda b: self.setitem(b, idx, v))
        elif isinstance(target, ast.Attribute):
            base = self.ev(target.value)
            v = self.bind(v)
            self.case(base, lambda b: self.setattr(b, target.attr, v))
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v)
        else:
            raise Unsupported("assign target")

    def unpack(self, target, v):
        n = len(target.elts)
        star = [i for i, e in enumerate(target.elts) if isinstance(e, ast.Starred)]
        items = self.unpack_items(v, n if not star else None)
        if star:
            if items is None:
                raise Unsupported("starred unpack of unknown length")
            i = star[0]
            tail = n - i - 1
            if len(items) < n - 1:
                self.do_raise(self.exc("ValueError", const("unpack")))
            mid = items[i:len(items) - tail]
            for e, x in zip(target.elts[:i], items[:i]):
                self.assign(e, x)
            self.assign(target.elts[i].value, self.new(ListC([self.bind(x) for x in mid])))
            for e, x in zip(target.elts[i + 1:], items[len(items) - tail:]):
                self.assign(e, x)
            return
        if len(items) != n:
            self.event("unpack-mismatch", (len(items), n))
            self.do_raise(self.exc("ValueError", const("unpack")))
        for e, x in zip(target.elts, items):
            self.assign(e, x)

    def unpack_items(self, v, n):
        v = self.resolve(v)
        if isinstance(v, VTuple):
            return list(v.items)
        if isinstance(v, VGamma):
            fa, fb = v.a, v.b
            s0 = self.st
            self.st = s0.fork(v.cond)
            ia = self.unpack_items(fa, n)
            self.st = s0.fork(not_(v.cond))
            ib = self.unpack_items(fb, n)
            self.st = s0
            if ia is None or ib is None or len(ia) != len(ib):
                return ia if ib is None else ib
            return [self.mergeval(v.cond, x, y) for x, y in zip(ia, ib)]
        if v is NONE:
            self.none_op("unpacking")
        c = self.content(v)
        if isinstance(c, (ListC, SetC)):
            return list(self.apart(c) if isinstance(c, SetC) else c.items)
        if isinstance(c, DictC):
            return [k for k, _ in c.items]
        if isinstance(c, GammaC):
            t = self.cterm(c)
        elif c is not None and not isinstance(c, Term):
            it = self.iterlist(v)
            return it
        else:
            t = self.t(v)
        if t.op in ("tuple", "vec", "list"):
            return list(t.args[0])
        if n is None:
            # a symbolic sequence whose length is declared
            k = self.ext.known_length(self, t)
            if k is None:
                return None
            n = k
        if t.op == "ite" and kind(t.args[0]) != "arr":
            pass
        self.note_len(t, n)
        out = []
        for k in range(n):
            x = self.ext.unpack_elem(self, t, k)
            if isinstance(v, VRef) and kind(x) not in ("scalar", "int", "bool", "str"):
                out.append(x)
            else:
                out.append(x)
        return out

    def note_len(self, t, n):
        pass

    def s_AugAssign(self, s):
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            cur = self.load_name(s.target)
            val = self.ev(s.value)
            self.at(s)

            def go(cur):
                c = self.content(cur)
                if isinstance(c, ListC) and op == "Add":
                    self.callv(self.getattr(cur, "extend"), [val], {})
                    return cur
                if isinstance(c, (InstC, DictC, SetC)):
                    return self.binop(op, cur, val)
                if isinstance(cur, VRef):
                    t = self.cterm(c)
                    k = kind(t)
                    if k in ("scalar", "int", "bool", "str") or t.op in ("tuple",):
                        return self.binop(op, cur, val)
                    r = self.t(self.binop(op, cur, val))
                    self.write(cur, r, "augmented assignment")
                    return cur
                return self.binop(op, cur, val)
            r = self.case(cur, go)
            self.store_name(s.target.id, r)
        elif isinstance(s.target, ast.Subscript):
            base = self.ev(s.target.value)
            idx = self.index(s.target.slice)
            cur = self.case(base, lambda b: self.getitem(b, idx))
            val = self.ev(s.value)
            self.at(s)
            if isinstance(cur, VRef) and isinstance(self.content(cur), ListC):
                self.callv(self.getattr(cur, "extend"), [val], {})
                return
            nv = self.binop(op, cur, val)
            self.case(base, lambda b: self.setitem(b, idx, nv))
        elif isinstance(s.target, ast.Attribute):
            base = self.ev(s.target.value)
            cur = self.case(base, lambda b: self.getattr(b, s.target.attr))
            val = self.ev(s.value)
            self.at(s)
            cc = self.content(cur)
            if isinstance(cc, ListC):
                self.callv(self.getattr(cur, "extend"), [val], {})
                return
            nv = self.binop(op, cur, val)
            if isinstance(cur, VRef) and isinstance(cc, Term) and not (kind(cc) in ("scalar", "int", "bool", "str")):
                self.write(cur, self.t(nv), "augmented assignment")
                return
            self.case(base, lambda b: self.setattr(b, s.target.attr, nv))

    def s_If(self, s):
        g = self.truth(self.ev(s.test))
        self.ifelse(g, lambda: self.run_block(s.body), lambda: self.run_block(s.orelse))

    def ifelse(self, g, fa, fb):
        r = self.decide(g)
        if r is True:
            fa()
            return
        if r is False:
            fb()
            return
        s0 = self.st
        self.st = s0.fork(g)
        fa()
        s1 = self.st
        self.st = s0.fork(not_(g))
        fb()
        s2 = self.st
        self.st = self.merge(g, s1, s2)

    def s_Assert(self, s):
        # the test is evaluated, then the failing side raises
        g = self.truth(self.ev(s.test))
        self.at(s)
        r = self.decide(g)
        if r is True:
            return
        msg = NONE
        if s.msg is not None and not isinstance(s.msg, ast.Constant):
            s0 = self.st
            self.st = s0.fork(not_(g))
            self.quiet += 1
            try:
                msg = self.t(self.ev(s.msg))
            except DeadPath:
                pass
            finally:
                self.quiet -= 1
            self.st = s0
        self.raise_if(not_(g), self.exc("AssertionError"))

    def s_Raise(self, s):
        if s.exc is None:
            e = self.frames[-1].curexc if hasattr(self.frames[-1], "curexc") else self.exc("RuntimeError")
        else:
            v = self.ev(s.exc)
            e = self.excterm(v)
        self.at(s)
        self.do_raise(e)

    def excterm(self, v):
        v = self.resolve(v)
        if isinstance(v, VExt):
            return self.exc(v.name.split(".")[-1])
        if isinstance(v, VClass):
            return self.exc(v.name)
        t = self.t(v)
        if t.op == "exc":
            return t
        if t.op in ("call", "xcall"):
            return self.exc(t.args[0].split(".")[-1])
        if t.op == "inst":
            return self.exc(t.args[0].split(".")[-1])
        if t.op == "const":
            self.event("raise-nonexception", t)
            return self.exc("TypeError")
        if t.op == "ite":
            return t
        return self.exc("?", t)

    def expected(self, nev, handlers):
        """a reference that fails inside a try statement which handles that failure is the program's way of asking"""
        if not handlers:
            return
        drop = set()
        for h in handlers:
            names = {"*"} if h.type is None else {n.attr if isinstance(n, ast.Attribute) else n.id for n in ast.walk(h.type) if isinstance(n, (ast.Name, ast.Attribute))}
            wide = bool(names & {"*", "Exception", "BaseException"})
            for k, es in (("missing-attr", {"AttributeError"}), ("missing-key", {"KeyError", "LookupError"}), ("index-out-of-range", {"IndexError", "LookupError"}),
                          ("unresolved-import", {"ImportError", "ModuleNotFoundError"}), ("readonly-attr", {"AttributeError"}), ("unpack-mismatch", {"ValueError"})):
                if wide or names & es:
                    drop.add(k)
            if "NameError" in names:
                drop.add("undefined-name")
            if "TypeError" in names:
                drop.add("bad-call")
        self.events[nev:] = [e for e in self.events[nev:] if e.kind not in drop]

    def s_Try(self, s):
        prefix = self.st.pc
        s0 = self.st
        self.handlers.append([])
        self.tryraise.append([])
        nev = len(self.events)
        fr = self.frames[-1]
        lp = fr.loop
        marks = (len(fr.rets), len(lp.breaks) if lp is not None else 0, len(lp.conts) if lp is not None else 0)
        try:
            self.run_block(s.body)
            if self.st is not None and s.orelse:
                pass
        finally:
            raised = self.handlers.pop()
            extcalls = self.tryraise.pop()
            self.expected(nev, s.handlers)
        body_st = self.st
        outs = []
        # calls that leave the package may raise: the handler is entered with the state before the try
        if s.handlers and extcalls:
            g = mk("raised", tuple(sorted(set(extcalls), key=lambda t: t.id)))
            hs = s0.fork(g)
            # calls of the body happen whether or not they raise
            raised = [(hs, self.exc("Exception", mk("caught")), self.site, ())] + raised
            if body_st is not None:
                body_st = self._assume(body_st, not_(g))
            # leaving the block by return, break or continue also means that nothing raised
            fr.rets[marks[0]:] = [(self._assume(st_, not_(g)), v_) for st_, v_ in fr.rets[marks[0]:]]
            if lp is not None and fr.loop is lp:
                lp.breaks[marks[1]:] = [self._assume(st_, not_(g)) for st_ in lp.breaks[marks[1]:]]
                lp.conts[marks[2]:] = [self._assume(st_, not_(g)) for st_ in lp.conts[marks[2]:]]
        if body_st is not None:
            self.st = body_st
            self.run_block(s.orelse)
            body_st = self.st
        ends = []
        rest = []
        for (rst, exc, site, stack) in raised:
            self.st = rst
            handled = False
            for h in s.handlers:
                m = self.exc_match(h, exc)
                if m is False:
                    continue
                if isinstance(m, tuple):
                    # whatever a call outside the package raises may or may not be of the named types
                    gm = mk("excmatch", m, tuple(sorted(set(extcalls), key=lambda t: t.id)))
                    T._setkind(gm, "bool")
                    base_ = self.st
                    self.st = base_.fork(gm)
                    self.frames[-1].curexc = exc
                    if h.name:
                        self.store_name(h.name, exc)
                    self.run_block(h.body)
                    ends.append(self.st)
                    self.st = rst = base_.fork(not_(gm))
                    continue
                self.frames[-1].curexc = exc
                if h.name:
                    self.store_name(h.name, exc)
                self.run_block(h.body)
                ends.append(self.st)
                handled = True
                break
            if not handled:
                rest.append((rst, exc, site, stack))
        allends = [e for e in ends if e is not None]
        st = body_st
        for e in allends:
            if st is None:
                st = e
            else:
                g = and_(*e.pc[len(prefix):])
                st = self.merge(g, e, st)
        if s.finalbody:
            # the finally block runs on every exit; escaping exceptions pass through it too
            nrest = []
            for (rst, exc, site, stack) in rest:
                self.st = rst
                self.run_block(s.finalbody)
                if self.st is not None:
                    nrest.append((self.st, exc, site, stack))
            rest = nrest
            fr = self.frames[-1]
            self.st = st
            if st is not None:
                self.run_block(s.finalbody)
            st = self.st
        self.handlers[-1].extend(rest)
        self.st = st

    def _assume(self, st, g):
        return st.fork(g)

    def exc_match(self, h, exc):
        if h.type is None:
            return True
        v = self.ev(h.type)
        names = []
        for x in (v.items if isinstance(v, VTuple) else [v]):
            names.append(x.name.split(".")[-1] if isinstance(x, (VExt, VClass)) else "?")
        if exc.op == "exc":
            n = exc.args[0]
            if n in names or any(b in names for b in EXC_BASES.get(n, ("Exception", "BaseException"))):
                return True
            if exc.args[1] and exc.args[1][0].op == "caught":
                return tuple(sorted(names))
            return False
        return True

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            w = self.ext.enter(self, v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, w)
        self.run_block(s.body)

    # ------------------------------------------------------------ loops
    def s_For(self, s):
        it = self.ev(s.iter)
        self.at(s)
        self.s_for_value(s, it)

    def unroll(self, items, setter, body, orelse):
        fr = self.frames[-1]
        lp = Loop()
        saved = fr.loop
        fr.loop = lp
        prefix = self.st.pc if self.st else ()
        try:
            for x in items:
                if self.st is None:
                    break
                pfx = self.st.pc
                lp.conts = []
                try:
                    setter(x)
                except DeadPath:
                    self.st = None
                    break
                self.run_block(body)
                outs = lp.conts + ([self.st] if self.st is not None else [])
                self.st = self.join_states(outs, pfx)
            if self.st is not None and orelse:
                self.run_block(orelse)
        finally:
            fr.loop = saved
        outs = lp.breaks + ([self.st] if self.st is not None else [])
        self.st = self.join_states(outs, prefix)

    def join_states(self, outs, prefix):
        if not outs:
            return None
        st = outs[-1]
        for s in reversed(outs[:-1]):
            st = self.merge(and_(*s.pc[len(prefix):]), s, st)
        return st

    def s_Break(self, s):
        self.frames[-1].loop.breaks.append(self.st)
        self.st = None

    def s_Continue(self, s):
        self.frames[-1].loop.conts.append(self.st)
        self.st = None

    def s_While(self, s):
        r = self.while_induction(s)
        if r:
            return
        # constant-bounded while loops are unrolled
        fr = self.frames[-1]
        lp = Loop()
        saved = fr.loop
        fr.loop = lp
        prefix = self.st.pc
        try:
            for n in range(UNROLL):
                g = self.truth(self.ev(s.test))
                d = self.decide(g)
                if d is False:
                    break
                if d is None:
                    self.opaque_loop(s)
                    return
                lp.conts = []
                self.run_block(s.body)
                self.st = self.join_states(lp.conts + ([self.st] if self.st is not None else []), prefix)
                if self.st is None:
                    break
            else:
                raise Unsupported("while loop")
        finally:
            fr.loop = saved
        self.st = self.join_states(lp.breaks + ([self.st] if self.st is not None else []), prefix)

    def while_induction(self, s):
        """while i < N: ...; i += 1   as   for i in range(i0, N)"""
        t_ = s.test
        if not (isinstance(t_, ast.Compare) and len(t_.ops) == 1 and isinstance(t_.ops[0], (ast.Lt, ast.LtE, ast.NotEq))
                and isinstance(t_.left, ast.Name) and not s.orelse):
            return False
        name = t_.left.id
        incs = [x for x in s.body if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name
                and isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant) and x.value.value == 1]
        writes = [x for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store)]
        if len(incs) != 1 or len(writes) != 1 or s.body[-1] is not incs[0]:
            return False
        if any(isinstance(x, ast.Continue) for b in s.body for x in ast.walk(b)):
            return False
        i0 = self.t(self.load_name(t_.left))
        n = self.t(self.ev(t_.comparators[0]))
        if isinstance(t_.ops[0], ast.LtE):
            n = add(n, ONE)
        if not (kind(i0) == "int" or i0.op == "num"):
            return False
        cnt = T.mnmx("max", ZERO, sub(n, i0)) if not T.nonneg(sub(n, i0)) else sub(n, i0)
        rng = mk("range", i0, n, ONE, cnt) if not (i0.op == "num" and n.op == "num") else None
        loop = ast.For(target=ast.Name(id=name, ctx=ast.Store()), iter=None, body=s.body[:-1] or [ast.Pass()], orelse=[])
        ast.copy_location(loop, s)
        ast.fix_missing_locations(loop)
        if rng is None:
            a, b = int(numval(i0)), int(numval(n))
            if b - a > UNROLL:
                return False
            self.unroll([num(k) for k in range(a, b)], lambda x: self.assign(loop.target, x), loop.body, [])
        else:
            self.sym_for(loop, rng)
        if self.st is not None:
            # value after normal termination (early exits keep the current index; approximated only when there are none)
            if not any(isinstance(x, ast.Break) for b in s.body for x in ast.walk(b)):
                self.store_name(name, add(i0, cnt))
        return True

    def opaque_loop(self, s):
        raise Unsupported("loop at %s:%s" % self.site[:2])

    # iteration descriptors -------------------------------------------------
    def iterlist(self, v):
        """concrete list of element values, or None when the length is unknown"""
        v = self.resolve(v)
        if isinstance(v, VTuple):
            return list(v.items)
        c = self.content(v)
        if isinstance(c, (ListC, SetC)):
            return list(self.apart(c) if isinstance(c, SetC) else c.items)
        if isinstance(c, DictC):
            return [k for k, _ in c.items]
        if isinstance(c, InstC):
            m = self.classattr(c.cls, "__iter__")
            if m is not None:
                return self.iterlist(self.callv(self.getattr(v, "__iter__"), [], {}))
            return None
        if isinstance(v, VGamma):
            a, b = self.iterlist(v.a), self.iterlist(v.b)
            if a is not None and b is not None and len(a) == len(b):
                return [self.mergeval(v.cond, x, y) for x, y in zip(a, b)]
            return None
        if isinstance(v, (Term, VRef)):
            t = self.t(v)
            if t.op in ("tuple", "vec", "list", "set"):
                return list(t.args[0])
            if t.op == "const" and isinstance(t.args[0], str):
                return [const(ch) for ch in t.args[0]]
            if t.op == "range" and t.args[3].op == "num":
                n = int(numval(t.args[3]))
                return [add(t.args[0], mul(t.args[2], num(k))) for k in range(n)]
            if t.op == "iota" and t.args[0].op == "num":
                return [num(k) for k in range(int(numval(t.args[0])))]
            k = self.ext.known_length(self, t)
            if k is not None and k <= UNROLL:
                return [self.ext.unpack_elem(self, t, i) for i in range(k)]
            if t.op == "zip":
                cols = [self.iterlist(x) for x in t.args[0]]
                ns = [len(c) for c in cols if c is not None]
                if ns:
                    n = min(ns)
                    if n <= UNROLL:
                        return [VTuple([c[i] if c is not None else getitem(x, num(i)) for c, x in zip(cols, t.args[0])])
                                for i in range(n)]
            if t.op == "enumerate":
                c = self.iterlist(t.args[0])
                if c is not None:
                    return [VTuple([add(t.args[1], num(i)), x]) for i, x in enumerate(c)]
        return None

    def iterdesc(self, t):
        """(length term, element function of the index) for a symbolic iterable, or None"""
        if t.op == "enumerate":
            d = self.iterdesc(t.args[0])
            if d is None:
                return None
            n, f = d
            return n, (lambda i: VTuple([add(t.args[1], i), f(i)]))
        if t.op == "zip":
            ds = [self.iterdesc(x) for x in t.args[0]]
            if any(d is None for d in ds):
                return None
            n = ds[0][0]
            return n, (lambda i: VTuple([f(i) for _, f in ds]))
        if t.op == "product":
            return None
        if t.op == "range":
            return t.args[3], (lambda i: add(t.args[0], mul(t.args[2], i)))
        if t.op == "iota":
            return t.args[0], (lambda i: i)
        if t.op == "reversed":
            d = self.iterdesc(t.args[0])
            if d is None:
                return None
            n, f = d
            return n, (lambda i: f(sub(sub(n, ONE), i)))
        if t.op == "map" and len(t.args[0]) > 1:
            return None
        n = length(t)
        if n is None:
            n = mk("len", t)
        return n, (lambda i: getitem(t, i))

    def newbound(self, n):
        self.level += 1
        return mk("bound", self.level, n)

    def multi(self, it):
        """index variables and element of an iterable that is itself a (nested) map or product"""
        t = self.t(it) if not isinstance(it, Term) else it
        if t.op == "ite":
            return None
        wrap = lambda x, bs: x
        if t.op == "map" and len(t.args[0]) > 1:
            bs, body = t.args
            nb = []
            m = {}
            for b in bs:
                self.level += 1
                x = mk("bound", self.level, subst(b.args[1], m))
                m[b] = x
                nb.append(x)
            return tuple(nb), self.unterm(subst(body, m))
        if t.op == "product":
            nb, el = [], []
            for x in t.args[0]:
                d = self.iterdesc(x)
                if d is None:
                    return None
                b = self.newbound(d[0])
                nb.append(b)
                el.append(d[1](b))
            return tuple(nb), VTuple(el)
        d = self.iterdesc(t)
        if d is None:
            return None
        b = self.newbound(d[0])
        return (b,), self.unterm(d[1](b))

    def unterm(self, v):
        if isinstance(v, Term) and v.op == "tuple":
            return VTuple([self.unterm(x) for x in v.args[0]])
        return v

    def sym_for(self, s, it):
        def body():
            self.run_block(s.body)
        fr = self.frames[-1]
        it = self.resolve(it)
        if isinstance(it, VGamma):
            self.ifelse(it.cond, lambda: self.s_for_value(s, it.a), lambda: self.s_for_value(s, it.b))
            return
        t = self.t(it)
        if t.op == "ite":
            self.ifelse(t.args[0], lambda: self.s_for_value(s, t.args[1]), lambda: self.s_for_value(s, t.args[2]))
            return
        saved_level = self.level
        md = self.multi(it)
        if md is None:
            self.opaque_loop(s)
            return
        bs, el = md
        self.summarise(s, bs, el)
        self.level = saved_level

    def s_for_value(self, s, v):
        v = self.resolve(v)
        c = self.content(v)
        if isinstance(c, GammaC):
            self.ifelse(c.cond, lambda: self.s_for_value(s, v), lambda: self.s_for_value(s, v))
            return
        items = self.iterlist(v)
        if items is not None and len(items) <= UNROLL:
            self.unroll(items, lambda x: self.assign(s.target, x), s.body, s.orelse)
        else:
            self.sym_for(s, v)

    def body_once(self, s, el, st):
        """run the loop body from state st; returns (normal exit state, breaks, raises, rets)"""
        fr = self.frames[-1]
        lp = Loop()
        saved, srets = fr.loop, fr.rets
        fr.loop, fr.rets = lp, []
        self.handlers.append([])
        self.st = st
        pfx = st.pc
        try:
            try:
                self.assign(s.target, el)
                self.run_block(s.body)
            except DeadPath:
                self.st = None
            out = self.join_states(lp.conts + ([self.st] if self.st is not None else []), pfx)
            return out, lp.breaks, self.handlers[-1], fr.rets
        finally:
            self.handlers.pop()
            fr.loop, fr.rets = saved, srets

    def summarise(self, s, bs, el):
        st0 = self.st
        pfx = st0.pc
        fr = self.frames[-1]
        # ---- scouting pass: what does the body change?
        self.quiet += 1
        nloc0 = self.nloc
        lvl = self.level
        try:
            out, brk, rs, rets = self.body_once(s, el, st0.fork(TRUE))
        finally:
            self.quiet -= 1
        names, locs = set(), set()
        for o in [x for x in [out] + brk if x is not None]:
            for f in st0.env:
                d0, d1 = st0.env[f], o.env.get(f, {})
                for k in d1:
                    if d1[k] is not d0.get(k):
                        names.add((f, k))
            for l in st0.heap:
                if o.heap.get(l) is not st0.heap[l]:
                    locs.add(l)
        tnames = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        # ---- phi pass (iterate: induction variables first)
        ind = {}
        flat = len(bs) == 1
        for attempt in range(3):
            st = st0.fork(TRUE)
            phis = {}
            self.level = lvl
            for (f, k) in names:
                if k in tnames and f == fr.fid:
                    continue
                v0 = st0.env[f].get(k)
                if v0 is None:
                    st.env[f].pop(k, None)
                    continue
                if (f, k) in ind:
                    st.env[f][k] = ind[(f, k)]
                    continue
                kk = None
                if isinstance(v0, Term):
                    kk = {"int": "int", "scalar": "float", "bool": "bool", "str": "str"}.get(kind(v0))
                    p = mk("phi", k, lvl, kk or "any")
                    T._setkind(p, kk)
                else:
                    p = mk("phi", k, lvl, "any")
                phis[(f, k)] = p
                st.env[f][k] = p
            lphis = {}
            for l in locs:
                c0 = st0.heap[l]
                if isinstance(c0, ListC):
                    c = ListC(())
                    lphis[l] = ("list", c0)
                    st.heap[l] = c
                elif isinstance(c0, Term):
                    k_ = "arr" if kind(c0) == "arr" else None
                    if c0.op in ("map", "vec", "concat") and self.is_listy(l):
                        lphis[l] = ("listterm", c0)
                        st.heap[l] = ListC(())
                    else:
                        p = mk("phi", l, lvl, "arr" if k_ else "any")
                        T._setkind(p, k_)
                        lphis[l] = ("term", c0, p)
                        st.heap[l] = p
                else:
                    lphis[l] = ("other", c0)
            nev = len(self.events)
            out, brk, rs, rets = self.body_once(s, el, st)
            # induction variables
            newind = dict(ind)
            if out is not None and flat and not brk:
                for (f, k), p in phis.items():
                    v1 = out.env[f].get(k)
                    v0 = st0.env[f].get(k)
                    if isinstance(v1, Term) and isinstance(v0, Term):
                        d = sub(v1, p) if T._numeric(v1) or v1 is p else None
                        if d is not None and not T.depends(d, lambda x: x.op == "phi") and not (T.bounds(d) & set(bs)) \
                                and kind(d) in ("int", "scalar") and d is not ZERO:
                            newind[(f, k)] = add(v0, mul(d, bs[0]))
            if newind != ind:
                ind = newind
                del self.events[nev:]
                continue
            break
        else:
            pass
        if any(v[0] == "other" for v in lphis.values()):
            for l, v in lphis.items():
                if v[0] == "other":
                    raise Unsupported("loop modifies object")
        isphi = lambda x: x.op == "phi" and x.args[1] == lvl

        def clean(t):
            return not T.depends(t, isphi)
        # ---- exits inside the loop: first index at which the exit condition holds
        exits = []
        for b in brk:
            exits.append(("break", b, None))
        for (rst, v) in rets:
            exits.append(("return", rst, v))
        raises = rs
        after = st0.fork(TRUE)
        # raises: exists b such that ...
        facts_after = []
        for (rst, exc, site, stack) in raises:
            suffix = [l for l in rst.pc[len(pfx):]]
            g = and_(*suffix)
            if not clean(g):
                g = mk("opaque_guard", g)
            ex = quant("exists", bs, g)
            h = st0.fork(ex)
            self.handlers[-1].append((h, exc, site, stack))
            facts_after.append(not_(ex))
        if out is None and not exits:
            # every iteration raises: only the empty sequence gets past
            self.st = after
            for f in facts_after:
                self.st = self.st.fork(f)
            if s.orelse:
                self.run_block(s.orelse)
            return
        n = bs[0].args[1]
        if exits:
            if not flat:
                raise Unsupported("early exit from a nested loop")
            conds = [and_(*e[1].pc[len(pfx):]) for e in exits]
            if not all(clean(c) for c in conds):
                raise Unsupported("early exit depends on loop state")
            # anything else the loop modifies before the exit must not be carried over
            carried = [k for k in phis] + [l for l in lphis]
            anyc = or_(*conds)
            m = A.mk_map(bs, anyc) if anyc not in (TRUE, FALSE) else A.full(n, anyc)
            hit = A.reduce_("any", m) if anyc is not TRUE else not_(eq(n, ZERO))
            first = mk("firstidx", m) if anyc is not TRUE else ZERO
            for (f, k), p in phis.items():
                o = out.env[f].get(k) if out is not None else p
                if o is not p:
                    raise Unsupported("loop state with early exit")
            for l, lp in lphis.items():
                if out is not None and lp[0] in ("list", "listterm") and isinstance(out.heap[l], ListC) and not out.heap[l].items:
                    continue
                if out is not None and lp[0] == "term" and out.heap[l] is lp[2]:
                    continue
                raise Unsupported("loop state with early exit")
            # state at the first exit
            mp = {bs[0]: first}
            rest = None
            s_hit = None
            outs = []
            for kind_, est, v in exits:
                c = and_(*est.pc[len(pfx):])
                c1 = T.subst(c, mp) if len(exits) > 1 else TRUE
                es = State({f: dict(d) for f, d in st0.env.items()}, dict(st0.heap), pfx + (hit,) + ((c1,) if c1 is not TRUE else ()))
                for (f, k) in names:
                    if k in est.env.get(f, {}):
                        v1 = est.env[f][k]
                        es.env[f][k] = st0.env[f].get(k, UNDEF) if (f, k) in phis and v1 is phis[(f, k)] else self.vsubst(v1, mp, est, es)
                for l, lp in lphis.items():
                    es.heap[l] = lp[1]
                for l in est.heap:
                    if l > nloc0 and l not in es.heap:
                        c_ = est.heap[l]
                        es.heap[l] = T.subst(c_, mp) if isinstance(c_, Term) else c_
                if kind_ == "return":
                    fr.rets.append((es, self.vsubst(v, mp, est, es)))
                else:
                    outs.append(es)
            ns = st0.fork(not_(hit))
            for f in facts_after:
                ns = ns.fork(f)
            self.st = ns
            if s.orelse:
                self.run_block(s.orelse)
                ns = self.st
            self.st = self.join_states(outs + ([ns] if ns is not None else []), pfx)
            return
        # ---- normal summaries
        self.st = after
        for f in facts_after:
            self.st = self.st.fork(f)
        for (f, k) in names:
            v1 = out.env[f].get(k)
            if k in tnames and f == fr.fid or (f, k) not in phis and (f, k) not in ind:
                # assigned in every iteration: value of the last one
                if v1 is not None:
                    t1 = self.t_in(out, v1)
                    last = None
                    if t1 is not None and clean(t1):
                        last = t1
                        for b in bs:
                            last = T.subst(last, {b: sub(b.args[1], ONE)})
                    v0 = st0.env[f].get(k)
                    nz = not_(eq(n, ZERO)) if flat else TRUE
                    lv = last if last is not None else mk("opaque", "loop", k)
                    if v0 is None:
                        self.st.env[f][k] = self.mergeval(nz, self.bind(lv), UNDEF) if nz is not TRUE else self.bind(lv)
                    else:
                        self.st.env[f][k] = self.mergeval(nz, lv, v0) if isinstance(v0, Term) else lv
                continue
            v0 = st0.env[f].get(k)
            if (f, k) in ind:
                self.st.env[f][k] = T.subst(ind[(f, k)], {bs[0]: n})
                continue
            p = phis[(f, k)]
            t1 = self.t_in(out, v1)
            self.st.env[f][k] = self.bind(self.accum(p, self.t(v0), t1, bs, clean))
        for l, lp in lphis.items():
            c1 = out.heap[l]
            if lp[0] in ("list", "listterm"):
                self.st.heap[l] = self.listaccum(lp, c1, bs, out, clean)
            else:
                c0, p = lp[1], lp[2]
                if c1 is p:
                    continue
                if not isinstance(c1, Term):
                    raise Unsupported("loop content")
                self.st.heap[l] = self.accum(p, c0, c1, bs, clean)
        if s.orelse:
            self.run_block(s.orelse)

    listy = None

    def is_listy(self, l):
        return l in (self.listy or ())

    def t_in(self, st, v):
        saved = self.st
        self.st = st
        try:
            return self.t(v)
        finally:
            self.st = saved

    def vsubst(self, v, mp, st, es):
        if isinstance(v, Term):
            return T.subst(v, mp)
        if isinstance(v, VTuple):
            return VTuple([self.vsubst(x, mp, st, es) for x in v.items])
        if isinstance(v, VGamma):
            return VGamma(T.subst(v.cond, mp), self.vsubst(v.a, mp, st, es), self.vsubst(v.b, mp, st, es))
        return v

    def accum(self, p, v0, t1, bs, clean):
        """closed form of a variable updated by a loop"""
        if t1 is p:
            return v0
        n = bs[0].args[1]
        if v0 is NONE and len(bs) == 1:
            # first iteration initialises, the following ones combine
            none = isnone(p)
            if any(x is none for x in T.subterms(t1)):
                a, b = T.subst(t1, {none: TRUE}), T.subst(t1, {none: FALSE})
                if clean(a):
                    if b.op in ("or", "and") and p in b.args and \
                            (or_ if b.op == "or" else and_)(*[x for x in b.args if x is not p]) is a:
                        r = quant("exists" if b.op == "or" else "forall", bs, a)
                        return r if nonempty(n) else ite(not_(eq(n, ZERO)), r, NONE)
                    if T._numeric(b) and sub(b, p) is a:
                        r = quant("bigsum", bs, a)
                        return r if nonempty(n) else ite(not_(eq(n, ZERO)), r, NONE)
        if clean(t1):
            last = t1
            for b in bs:
                last = T.subst(last, {b: sub(b.args[1], ONE)})
            if len(bs) == 1:
                return ite(not_(eq(n, ZERO)), last, v0)
            return last
        if T._numeric(t1) or t1.op == "sum":
            d = sub(t1, p)
            if clean(d):
                return add(v0, quant("bigsum", bs, d))
        if t1.op in ("max", "min") and p in t1.args:
            rest = [a for a in t1.args if a is not p]
            r = rest[0] if len(rest) == 1 else T.mnmx(t1.op, *rest)
            if clean(r):
                m = A.mk_map(bs, r)
                return T.mnmx(t1.op, v0, A.reduce_("amax" if t1.op == "max" else "amin", m))
        if t1.op in ("or", "and") and p in t1.args:
            rest = [a for a in t1.args if a is not p]
            r = or_(*rest) if t1.op == "or" else and_(*rest)
            if clean(r):
                if t1.op == "or":
                    return or_(v0, quant("exists", bs, r))
                return and_(v0, quant("forall", bs, r))
        if t1.op == "ite" and p in (t1.args[1], t1.args[2]):
            # value changed only when the guard holds: idempotent updates
            c, a, b = t1.args
            if b is p and clean(c) and clean(a) and not (T.bounds(a) & set(bs)):
                return ite(quant("exists", bs, c), a, v0)
            if a is p and clean(c) and clean(b) and not (T.bounds(b) & set(bs)):
                return ite(quant("exists", bs, not_(c)), b, v0)
        if t1.op == "setidx" and t1.args[0] is p and len(bs) == 1 and clean(t1.args[2]):
            i, v = t1.args[1], t1.args[2]
            off = sub(i, bs[0])
            L = length(v0)
            if off is ZERO:
                m = A.mk_map(bs, v)
                if L is not None and L is n:
                    return m
                if L is not None and sub(L, n).op == "num":
                    return concat(m, getitem(v0, slc(n)))
                return mk("storeprefix", v0, m)
            if is_num(off) and numval(off) > 0 and L is not None and sub(L, off) is n:
                return concat(getitem(v0, slc(NONE, off)), A.mk_map(bs, v))
        if t1.op == "ite" and t1.args[1].op == "setidx" and t1.args[1].args[0] is p and t1.args[2] is p and len(bs) == 1:
            c, (_, i, v) = t1.args[0], t1.args[1].args
            L = length(v0)
            if i is bs[0] and clean(c) and clean(v) and L is n:
                return A.mk_map(bs, ite(c, v, getitem(v0, bs[0])))
        if t1.op == "store" and t1.args[0] is p and len(bs) == 1:
            pass
        return mk("fold", p.args[0] if isinstance(p.args[0], str) else "arr", bs, v0, T.subst(t1, {p: mk("acc")}))

    def listaccum(self, lp, c1, bs, out, clean):
        c0 = lp[1]
        base = [self.t(x) for x in c0.items] if isinstance(c0, ListC) else [c0]
        cond = None
        if isinstance(c1, GammaC):
            a, b = c1.a, c1.b
            if isinstance(b, ListC) and not b.items:
                cond, c1 = c1.cond, a
            elif isinstance(a, ListC) and not a.items:
                cond, c1 = not_(c1.cond), b
        if isinstance(c1, Term):
            # nested loop appended a whole map
            if c1.op == "map" and clean(c1) and cond is None:
                m = mk("map", tuple(bs) + c1.args[0], c1.args[1])
                return self.joinlist(c0, m)
            return mk("fold", "list", bs, self.cterm(c0), c1)
        if not isinstance(c1, ListC) or not c1.items:
            if isinstance(c1, ListC):
                return c0
            return mk("fold", "list", bs, self.cterm(c0), self.t_in(out, self.new_in(out, c1)))
        ts = [self.t_in(out, x) for x in c1.items]
        if not all(clean(t) for t in ts) or (cond is not None and not clean(cond)):
            return mk("fold", "list", bs, self.cterm(c0), mk("vec", tuple(ts)))
        if len(ts) == 1:
            if cond is not None:
                m = filtermap(bs, cond, ts[0])
            else:
                m = A.mk_map(bs, ts[0])
            return self.joinlist(c0, m)
        if cond is None:
            return self.joinlist(c0, mk("flatmap", tuple(bs), mk("vec", tuple(ts))))
        return mk("fold", "list", bs, self.cterm(c0), mk("vec", tuple(ts)))

    def joinlist(self, c0, m):
        if isinstance(c0, ListC):
            if not c0.items:
                return m
            return concat(mk("vec", tuple(self.t(x) for x in c0.items)), m)
        return concat(c0, m)

    def new_in(self, st, c):
        self.nloc += 1
        st.heap[self.nloc] = c
        return VRef(self.nloc)

    # ------------------------------------------------------------ expressions
    def ev(self, node):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            raise Unsupported("expression %s at %s" % (type(node).__name__, self.site))
        v = m(node)
        if isinstance(v, Term) and v.id not in self.prov and hasattr(node, "lineno") and self.frames:
            fr = self.frames[-1]
            if fr.mod in self.src.files:
                self.prov[v.id] = (self.src.files[fr.mod][0], node.lineno, fr.func)
        return v

    def e_Constant(self, n):
        v = n.value
        if v is None or isinstance(v, (bool, str, bytes)) or v is Ellipsis:
            return const(v)
        if isinstance(v, (int, float)):
            return num(v)
        return const(v)

    def e_Name(self, n):
        return self.load_name(n)

    def e_Tuple(self, n):
        return VTuple(self.elts(n.elts))

    def elts(self, es):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value)
                it = self.iterlist(v)
                if it is None:
                    it = self.unpack_items(v, None)
                if it is None:
                    raise Unsupported("starred")
                out.extend(it)
            else:
                out.append(self.bind(self.ev(e)))
        return out

    def e_List(self, n):
        try:
            return self.new(ListC(self.elts(n.elts)))
        except Unsupported:
            parts = []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    parts.append(self.t(self.ev(e.value)))
                else:
                    parts.append(mk("vec", (self.t(self.ev(e)),)))
            return self.new(concat(*parts))

    def e_Set(self, n):
        return self.new(SetC(self.elts(n.elts)))

    def e_Dict(self, n):
        items = []
        d = self.new(DictC(()))
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.callv(self.getattr(d, "update"), [self.ev(v)], {})
            else:
                kk = self.t(self.ev(k))
                vv = self.bind(self.ev(v))
                self.st.heap[d.loc] = self.dset(self.st.heap[d.loc], kk, vv)
        return d

    def e_JoinedStr(self, n):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(const(p.value))
            else:
                v = self.t(self.ev(p.value))
                fs = ""
                if p.format_spec is not None:
                    fs = "".join(x.value for x in p.format_spec.values if isinstance(x, ast.Constant))
                if p.format_spec is not None and not all(isinstance(x, ast.Constant) for x in p.format_spec.values):
                    parts.append(mk("fmt", v, mk("tuple", tuple(const(x.value) if isinstance(x, ast.Constant) else self.t(self.ev(x.value))
                                                                for x in p.format_spec.values))))
                    continue
                parts.append(self.ext.mkfmt(v, fs, p.conversion))
        return self.ext.mkstr(parts)

    def e_FormattedValue(self, n):
        return mk("fmt", self.t(self.ev(n.value)), "")

    def e_IfExp(self, n):
        g = self.truth(self.ev(n.test))
        return self.branch(g, lambda: self.ev(n.body), lambda: self.ev(n.orelse))

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)

        def go(vals):
            v = self.ev(vals[0])
            if len(vals) == 1:
                return v
            g = self.truth(v)
            r = self.decide(g)
            if isand:
                if r is False:
                    return FALSE if g is FALSE or kind_bool(v) else v
                return self.branch(g, lambda: go(vals[1:]), lambda: FALSE if kind_bool(v) else v)
            return self.branch(g, lambda: TRUE if kind_bool(v) else v, lambda: go(vals[1:]))
        return go(n.values)

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.store_name(n.target.id, v)
        return self.lookup(n.target.id)

    def e_Lambda(self, n):
        return self.mkfunc(n, "<lambda>")

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            return not_(self.truth(v))
        return self.case(v, lambda x: self.unary(type(n.op).__name__, x))

    def unary(self, op, v):
        c = self.content(v)
        if isinstance(c, InstC):
            m = {"USub": "__neg__", "Invert": "__invert__", "UAdd": "__pos__"}[op]
            if self.classattr(c.cls, m) is not None:
                return self.callv(self.getattr(v, m), [], {})
        t = self.t(v)
        if op == "USub":
            r = A.lift(neg, t)
            return r if r is not None else mk("neg", t)
        if op == "UAdd":
            return t
        if op == "Invert":
            if kind(t) == "int":
                return sub(neg(t), ONE)
            r = A.lift(not_, boolarr(t))
            return r if r is not None else mk("invert", t)
        raise Unsupported(op)

    def e_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        self.at(n)
        return self.binop(type(n.op).__name__, a, b)

    def none_op(self, op):
        self.event("none-op", (op,))
        self.do_raise(self.exc("TypeError"))

    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        ca, cb = self.content(a), self.content(b)
        if isinstance(a, VGamma) and not _plain(self, a):
            return self.case(a, lambda x: self.binop(op, x, b))
        if isinstance(b, VGamma) and not _plain(self, b):
            return self.case(b, lambda x: self.binop(op, a, x))
        if isinstance(ca, InstC) or isinstance(cb, InstC):
            return self.inst_binop(op, a, b, ca, cb)
        if NONE in (a, b, ca, cb):
            self.none_op(op)
        if op == "Add":
            if isinstance(a, VTuple) and isinstance(b, VTuple):
                return VTuple(a.items + b.items)
            if isinstance(ca, ListC) and isinstance(cb, ListC):
                return self.new(ListC(ca.items + cb.items))
            if isinstance(ca, ListC) and isinstance(cb, Term) and (self.is_list(b)) or \
                    isinstance(cb, ListC) and isinstance(ca, Term) and (self.is_list(a)) or \
                    (isinstance(ca, Term) and isinstance(cb, Term) and self.is_list(a) and self.is_list(b)):
                r = self.new(concat(self.cterm(ca), self.cterm(cb)))
                self.mark_list(r)
                return r
        if op == "Mult":
            for x, y, cx in ((a, b, ca), (b, a, cb)):
                if isinstance(cx, ListC) or isinstance(x, VTuple):
                    ty = self.t(y)
                    if ty.op == "num" and numval(ty).denominator == 1:
                        k = int(numval(ty))
                        if isinstance(x, VTuple):
                            return VTuple(x.items * k)
                        return self.new(ListC(cx.items * k))
                    if isinstance(cx, ListC) and kind(ty) == "int" and len(cx.items) == 1:
                        return self.new(full(ty, self.t(cx.items[0])))
        if op == "BitOr" and isinstance(ca, DictC) and isinstance(cb, DictC):
            d = ca
            for k, v in cb.items:
                d = self.dset(d, k, v)
            return self.new(d)
        ta, tb = self.t(a), self.t(b)
        return self.ext.binop(self, op, ta, tb)

    lists = None

    def mark_list(self, ref):
        if self.lists is None:
            self.lists = set()
        self.lists.add(ref.loc)
        if self.listy is None:
            self.listy = set()
        self.listy.add(ref.loc)

    def is_list(self, v):
        if isinstance(v, VRef):
            c = self.content(v)
            if isinstance(c, ListC):
                return True
            return v.loc is not None and self.lists is not None and v.loc in self.lists
        return False

    def inst_binop(self, op, a, b, ca, cb):
        m = OPMETH.get(op)
        if isinstance(ca, InstC) and self.classattr(ca.cls, "__%s__" % m) is not None:
            return self.callv(self.getattr(a, "__%s__" % m), [b], {})
        if isinstance(cb, InstC) and self.classattr(cb.cls, "__r%s__" % m) is not None:
            return self.callv(self.getattr(b, "__r%s__" % m), [a], {})
        return mk("op", op, self.t(a), self.t(b))

    def e_Compare(self, n):
        left = self.ev(n.left)
        vals = [left]

        def go(i, l):
            r = self.ev(n.comparators[i])
            self.at(n)
            c = self.compare(type(n.ops[i]).__name__, l, r)
            if i + 1 == len(n.ops):
                return c
            g = self.truth(c)
            return self.branch(g, lambda: go(i + 1, r), lambda: FALSE)
        return go(0, left)

    def compare(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, VGamma) and not _plain(self, a):
            return self.case(a, lambda x: self.compare(op, x, b))
        if isinstance(b, VGamma) and not _plain(self, b):
            return self.case(b, lambda x: self.compare(op, a, x))
        if op in ("Is", "IsNot"):
            r = self.is_(a, b)
            return r if op == "Is" else not_(r)
        if op in ("In", "NotIn"):
            r = self.contains(a, b)
            return r if op == "In" else not_(r)
        return self.ext.compare(self, op, a, b)

    def is_(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(y, Term) and y.op == "const":
                if y.args[0] is None:
                    if isinstance(x, VRef):
                        c = self.content(x)
                        if not isinstance(c, Term):
                            return ite(c.cond, self._isnone_c(c.a), self._isnone_c(c.b)) if isinstance(c, GammaC) else FALSE
                        return isnone(c)
                    if isinstance(x, Term):
                        return isnone(x)
                    return FALSE
                if isinstance(y.args[0], bool):
                    t = self.t(x)
                    if t.op == "const":
                        return boolc(t.args[0] is y.args[0])
                    if kind(t) == "bool":
                        return t if y.args[0] else not_(t)
                    if kind(t) in ("int", "scalar", "arr", "str"):
                        return FALSE
                    return mk("eq", *sorted([t, y], key=lambda q: q.id))
        if isinstance(a, (VExt, VClass, VFunc, VMod)) or isinstance(b, (VExt, VClass, VFunc, VMod)):
            ta, tb = self.t(a), self.t(b)
            if ta is tb:
                return TRUE
            if ta.op in ("ext", "cls", "func") and tb.op in ("ext", "cls", "func"):
                return FALSE
            return mk("eq", *sorted([ta, tb], key=lambda q: q.id))
        if isinstance(a, VRef) and isinstance(b, VRef):
            if a.loc is not None and a.loc == b.loc:
                return TRUE
            if a.loc is not None and b.loc is not None:
                return FALSE
        return eq(self.t(a), self.t(b))

    def _isnone_c(self, c):
        if isinstance(c, GammaC):
            return ite(c.cond, self._isnone_c(c.a), self._isnone_c(c.b))
        return isnone(c) if isinstance(c, Term) else FALSE

    def contains(self, x, seq):
        items = self.iterlist(seq)
        c = self.content(seq)
        if items is not None and not (isinstance(seq, Term) and seq.op == "const"):
            gs = []
            for it in items:
                g = self.truth(self.ext.compare(self, "Eq", x, it)) if not (isinstance(it, (VExt, VClass)) or isinstance(x, (VExt, VClass))) \
                    else self.is_(x, it)
                gs.append(g)
            return or_(*gs)
        if isinstance(c, InstC) and self.classattr(c.cls, "__contains__") is not None:
            return self.truth(self.callv(self.getattr(seq, "__contains__"), [x], {}))
        ts, tx = self.t(seq), self.t(x)
        if ts.op == "const" and tx.op == "const":
            try:
                return boolc(tx.args[0] in ts.args[0])
            except Exception:
                pass
        return self.ext.contains_term(self, ts, tx)

    # subscripts ------------------------------------------------------------
    def index(self, node):
        if isinstance(node, ast.Slice):
            return self.sliceterm(node)
        if isinstance(node, ast.Tuple):
            return VTuple([self.index(e) for e in node.elts])
        return self.ev(node)

    def sliceterm(self, n):
        f = lambda x: NONE if x is None else self.t(self.ev(x))
        return slc(f(n.lower), f(n.upper), f(n.step))

    def e_Slice(self, n):
        return self.sliceterm(n)

    def e_Subscript(self, n):
        b = self.ev(n.value)
        i = self.index(n.slice)
        self.at(n)
        return self.case(b, lambda x: self.getitem(x, i))

    def getitem(self, b, i):
        if isinstance(i, VGamma) and not isinstance(b, Term) and not _plain(self, i):
            return self.case(i, lambda x: self.getitem(b, x))
        if isinstance(b, VTuple):
            ti = self.t(i)
            return self.seqget(list(b.items), ti, lambda xs: VTuple(xs), b)
        if b is NONE:
            self.none_op("indexing")
        c = self.content(b)
        if isinstance(c, GammaC):
            return self.branch(c.cond, lambda: self.getitem_c(b, c.a, i), lambda: self.getitem_c(b, c.b, i))
        return self.getitem_c(b, c, i)

    def getitem_c(self, b, c, i):
        if isinstance(c, ListC):
            ti = self.t(i)
            return self.seqget(list(c.items), ti, lambda xs: self.new(ListC(xs)), b)
        if isinstance(c, DictC):
            k = self.t(i)
            v = c.get(k)
            if v is None:
                if k.op in ("const", "num", "tuple") and all(kk.op in ("const", "num", "tuple") for kk, _ in c.items):
                    self.event("missing-key", k)
                    self.do_raise(self.exc("KeyError", k))
                alts = [(kk, vv) for kk, vv in c.items]
                if not alts:
                    self.do_raise(self.exc("KeyError", k))
                gs = [eq(k, kk) for kk, _ in alts]
                self.raise_if(not_(or_(*gs)), self.exc("KeyError", k))
                val = alts[-1][1]
                for (kk, vv), g in reversed(list(zip(alts, gs))[:-1]):
                    val = self.mergeval(g, vv, val)
                return val
            if isinstance(v, VGamma):
                v = self.strip_undef(v, "key")
            return v
        if isinstance(c, InstC):
            if self.classattr(c.cls, "__getitem__") is not None:
                return self.callv(self.getattr(b, "__getitem__"), [i], {})
            return mk("getitem", self.t(b), self.t(i))
        ti = self.t(i)
        return self.ext.getitem_x(self, b, ti)

    def seqget(self, items, ti, mkseq, b):
        if ti.op == "num" and numval(ti).denominator == 1:
            k = int(numval(ti))
            if -len(items) <= k < len(items):
                return items[k]
            self.event("index-out-of-range", (k, len(items)))
            self.do_raise(self.exc("IndexError"))
        if ti.op == "slice" and all(a is NONE or a.op == "num" for a in ti.args):
            a = [None if x is NONE else int(numval(x)) for x in ti.args]
            return mkseq(items[a[0]:a[1]:a[2]])
        if ti.op == "const" and isinstance(ti.args[0], bool):
            return items[int(ti.args[0])]
        if ti.op == "ite" and kind(ti.args[0]) != "arr":
            return self.branch(ti.args[0], lambda: self.seqget(items, ti.args[1], mkseq, b),
                               lambda: self.seqget(items, ti.args[2], mkseq, b))
        return getitem(self.t(b), ti)

    def setitem(self, b, i, v):
        c = self.content(b)
        if isinstance(c, GammaC):
            self.write(b, self.cterm(c) if not _allinst(c) else c)
            c = self.content(b)
        if isinstance(c, ListC):
            ti = self.t(i)
            if ti.op == "num" and numval(ti).denominator == 1:
                k = int(numval(ti))
                if -len(c.items) <= k < len(c.items):
                    it = list(c.items)
                    it[k] = v
                    self.write(b, ListC(it), "item assignment")
                    return NONE
                self.event("index-out-of-range", (k, len(c.items)))
                self.do_raise(self.exc("IndexError"))
            if ti.op == "slice":
                self.write(b, store(self.cterm(c), ti, self.t(v)), "slice assignment")
                return NONE
            self.write(b, store(self.cterm(c), ti, self.t(v)), "item assignment")
            return NONE
        if isinstance(c, DictC):
            self.write(b, self.dset(c, self.t(i), v), "item assignment")
            return NONE
        if isinstance(c, InstC):
            if self.classattr(c.cls, "__setitem__") is not None:
                return self.callv(self.getattr(b, "__setitem__"), [i, v], {})
            self.event("ext-setitem", (self.t(b), self.t(i)))
            return NONE
        if isinstance(b, VRef):
            t = self.cterm(c)
            ti, tv = self.t(i), self.t(v)
            self.ext.on_store(self, b, t, ti, tv)
            self.write(b, self.ext.store(self, t, ti, tv), "item assignment")
            return NONE
        if isinstance(b, Term):
            # a value without identity (result of a call used as a store target)
            self.event("ext-setitem", (b, self.t(i)))
            return NONE
        if isinstance(b, (VExt, VMod)):
            self.event("mutate", (("extern", b.name), "item assignment"))
            return NONE
        raise Unsupported("item assignment")

    # attributes ------------------------------------------------------------
    def e_Attribute(self, n):
        b = self.ev(n.value)
        self.at(n)
        return self.case(b, lambda x: self.getattr(x, n.attr))

    def getattr(self, b, name):
        b = self.resolve(b)
        if isinstance(b, VGamma):
            return self.case(b, lambda x: self.getattr(x, name))
        if isinstance(b, VMod):
            if b.name.split(".")[0] == self.src.package:
                fid = self.load(b.name)
                d = self.st.env.get(fid, {})
                if name in d:
                    return d[name]
                if b.name + "." + name in self.src.files:
                    self.load(b.name + "." + name)
                    return VMod(b.name + "." + name)
                self.event("missing-attr", (b.name, name))
                self.do_raise(self.exc("AttributeError", const(name)))
            return self.ext.member(self, b.name, name)
        if isinstance(b, VExt):
            return self.ext.member(self, b.name, name)
        if isinstance(b, VClass):
            return self.class_getattr(b, name)
        if isinstance(b, VSuper):
            return self.super_getattr(b, name)
        if isinstance(b, VRef):
            c = self.content(b)
            if isinstance(c, GammaC) and _allinst(c):
                return self.branch(c.cond, lambda: self.inst_getattr(b, c.a, name), lambda: self.inst_getattr(b, c.b, name))
            if isinstance(c, InstC):
                return self.inst_getattr(b, c, name)
            return self.ext.getattr(self, b, name)
        if isinstance(b, (VTuple, VProp)):
            return VMeth(b, name)
        if isinstance(b, (VFunc, VBound, VDeco, VPartial)):
            if name == "__name__":
                f = b
                while not isinstance(f, VFunc):
                    f = f.func
                return const(getattr(f.node, "name", "<lambda>"))
            return self.deco_attr(b, name)
        if isinstance(b, Term):
            return self.ext.getattr(self, b, name)
        raise Unsupported("attribute %s of %r" % (name, b))

    def deco_attr(self, b, name):
        if isinstance(b, VDeco) and name in ("evaluate",):
            return b.func
        return mk("attr", self.t(b), name)

    def class_getattr(self, c, name):
        if name == "__name__":
            return const(c.name)
        v = self.classattr(c, name)
        if v is None or v is UNDEF:
            if c.extbases:
                for e in c.extbases:
                    if isinstance(e, VExt):
                        return self.ext.member(self, e.name, name)
                return mk("attr", self.t(c), name)
            if name in ("__dict__", "__doc__", "__module__", "__qualname__"):
                return mk("attr", self.t(c), name)
            self.event("missing-attr", (c.qual, name))
            self.do_raise(self.exc("AttributeError", const(name)))
        if isinstance(v, VStatic):
            return v.func if v.kind == "staticmethod" else VBound(c, v.func)
        return v

    def super_getattr(self, s, name):
        c = self.content(s.obj) if isinstance(s.obj, VRef) else None
        start = c.cls if isinstance(c, InstC) else s.obj if isinstance(s.obj, VClass) else s.cls
        mro = start.mro()
        i = mro.index(s.cls) if s.cls in mro else -1
        for k in mro[i + 1:]:
            d = self.clsattrs(k)
            if name in d:
                v = d[name]
                if isinstance(v, VProp):
                    return self.callv(v.fget, [s.obj], {})
                if isinstance(v, VStatic):
                    return v.func if v.kind == "staticmethod" else VBound(s.obj, v.func)
                return VBound(s.obj, v)
        return VMeth(s, name)

    def inst_getattr(self, b, c, name):
        if name == "__class__":
            return c.cls
        if name == "__dict__":
            return VRef(None, b, ("dict",))
        cv = self.classattr(c.cls, name)
        if isinstance(cv, VProp):
            if cv.fget is None:
                self.do_raise(self.exc("AttributeError", const(name)))
            return self.callv(cv.fget, [b], {})
        v = c.attrs.get(name)
        if v is not None and v is not UNDEF:
            v = self.resolve(v)
            if isinstance(v, VGamma) and _hasundef(v):
                if cv is not None:
                    return self.case(v, lambda x: self.bindcls(b, cv) if x is UNDEF else x)
                if c.cls.extbases:
                    return self.case(v, lambda x: self.ext.inst_attr(self, b, c, name) if x is UNDEF else x)
                return self.strip_undef(v, name)
            if v is not UNDEF:
                return v
        if cv is not None:
            return self.bindcls(b, cv)
        if c.cls.extbases:
            return self.ext.inst_attr(self, b, c, name)
        g = self.classattr(c.cls, "__getattr__")
        if g is not None:
            return self.callv(VBound(b, g), [const(name)], {})
        self.event("missing-attr", (c.cls.qual, name))
        self.do_raise(self.exc("AttributeError", const(name)))

    def bindcls(self, b, v):
        if isinstance(v, VFunc):
            return VBound(b, v)
        if isinstance(v, VStatic):
            if v.kind == "staticmethod":
                return v.func
            c = self.content(b)
            return VBound(c.cls, v.func)
        return v

    def setattr(self, b, name, v):
        b = self.resolve(b)
        if isinstance(b, VGamma):
            return self.case(b, lambda x: self.setattr(x, name, v))
        if isinstance(b, VRef):
            c = self.content(b)
            if isinstance(c, GammaC) and _allinst(c):
                raise Unsupported("attribute store on gated object")
            if isinstance(c, InstC):
                cv = self.classattr(c.cls, name)
                if isinstance(cv, VProp):
                    if cv.fset is None:
                        self.event("readonly-attr", (c.cls.qual, name))
                        self.do_raise(self.exc("AttributeError", const(name)))
                    self.callv(cv.fset, [b, v], {})
                    return NONE
                m = self.classattr(c.cls, "__setattr__")
                if m is not None:
                    self.callv(VBound(b, m), [const(name), v], {})
                    return NONE
                a = dict(c.attrs)
                a[name] = v
                self.write(b, InstC(c.cls, a), "." + name)
                return NONE
            t = self.cterm(c)
            self.write(b, self.ext.set_attr_term(self, t, name, self.t(v)), "." + name)
            return NONE
        if isinstance(b, VClass):
            c = self.st.heap[b.env.loc]
            a = dict(c.attrs)
            a[name] = v
            self.event("mutate", (("class", b.qual, name), "." + name))
            self.st.heap[b.env.loc] = InstC(c.cls, a)
            return NONE
        if isinstance(b, (VMod, VExt)):
            self.event("mutate", (("extern", b.name, name), "." + name))
            return NONE
        self.event("ext-setattr", (self.t(b), name))
        return NONE

    # comprehensions ----------------------------------------------------------
    def e_ListComp(self, n):
        return self.comp(n, "list")

    def e_GeneratorExp(self, n):
        return self.comp(n, "list")

    def e_SetComp(self, n):
        return self.comp(n, "set")

    def e_DictComp(self, n):
        return self.comp(n, "dict")

    def without_keys(self, n):
        """{k: v for k, v in d.items() if k != key}: d without that key, for a dictionary that is not known item by item"""
        g = n.generators[0]
        if len(n.generators) != 1 or not (isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Attribute) and g.iter.func.attr == "items" and
                                          not g.iter.args and not g.iter.keywords and isinstance(g.target, ast.Tuple) and len(g.target.elts) == 2):
            return None
        kn, vn = g.target.elts
        if not (isinstance(kn, ast.Name) and isinstance(vn, ast.Name) and isinstance(n.key, ast.Name) and isinstance(n.value, ast.Name) and
                n.key.id == kn.id and n.value.id == vn.id):
            return None
        keys = []
        for c in g.ifs:
            if not (isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.left, ast.Name) and c.left.id == kn.id):
                return None
            r = c.comparators[0]
            if isinstance(c.ops[0], ast.NotEq) and isinstance(r, ast.Constant):
                keys.append(r)
            elif isinstance(c.ops[0], ast.NotIn) and isinstance(r, (ast.Tuple, ast.List, ast.Set)) and all(isinstance(x, ast.Constant) for x in r.elts):
                keys.extend(r.elts)
            else:
                return None
        d = self.ev(g.iter.func.value)
        if isinstance(d, VRef) and isinstance(self.content(d), DictC):
            return None
        t = self.t(d)
        if t.op in ("dict", "tuple", "list", "vec", "const", "num", "ite"):
            return None
        for k in keys:
            t = self.ext.dictdel_(t, const(k.value))
        return t

    def comp(self, n, kind_):
        if kind_ == "dict":
            t = self.without_keys(n)
            if t is not None:
                return t
        # executed as a nested function body with explicit accumulation
        fr0 = self.frames[-1]
        self.nfid += 1
        fid = self.nfid
        self.st.env[fid] = {}
        self.parent[fid] = fr0.fid
        f = Frame(fid, fr0.func, n)
        f.mod, f.cls, f.selfv, f.defcls = fr0.mod, None, fr0.selfv, getattr(fr0, "defcls", None)
        f.globals_ = fr0.globals_
        self.frames.append(f)
        try:
            acc = self.new(ListC(()) if kind_ == "list" else SetC(()) if kind_ == "set" else DictC(()))
            self.mark_list(acc)
            self.st.env[fid]["$acc"] = acc
            if kind_ == "list":
                inner = ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id="$acc", ctx=ast.Load()), attr="append", ctx=ast.Load()),
                                          args=[n.elt], keywords=[]))
            elif kind_ == "set":
                inner = ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id="$acc", ctx=ast.Load()), attr="add", ctx=ast.Load()),
                                          args=[n.elt], keywords=[]))
            else:
                inner = ast.Assign(targets=[ast.Subscript(value=ast.Name(id="$acc", ctx=ast.Load()), slice=n.key, ctx=ast.Store())],
                                   value=n.value)
            body = [inner]
            for g in reversed(n.generators):
                for c in reversed(g.ifs):
                    body = [ast.If(test=c, body=body, orelse=[])]
                body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
            for b in body:
                ast.copy_location(b, n)
                ast.fix_missing_locations(b)
            self.run_block(body)
            if self.st is None:
                raise DeadPath()
            acc = self.st.env[fid]["$acc"]
            return acc
        finally:
            self.frames.pop()
            if self.st is not None:
                self.st.env.pop(fid, None)

    # calls ---------------------------------------------------------------------
    def e_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and self.lookup("super") is None:
            fr = self.frames[-1]
            k = len(self.frames) - 1
            while k >= 0 and getattr(self.frames[k], "defcls", None) is None:
                k -= 1
            fr = self.frames[k]
            return VSuper(fr.defcls, fr.selfv)
        f = self.ev(n.func)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                it = self.iterlist(v)
                if it is None:
                    it = self.unpack_items(v, None)
                if it is None:
                    args.append(mk("star", self.t(v)))
                else:
                    args.extend(it)
            else:
                args.append(self.ev(a))
        stars = []
        for k in n.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                stars.append(v)
            else:
                kwargs[k.arg] = v
        self.at(n)
        if stars:
            return self.call_starred(f, args, kwargs, stars, n)
        return self.callv(f, args, kwargs)

    def call_starred(self, f, args, kwargs, stars, n=None):
        """expand ** mappings, by cases where their shape depends on a condition"""
        if not stars:
            if n is not None:
                self.at(n)
            return self.callv(f, args, kwargs)
        v = self.resolve(stars[0])
        if isinstance(v, VGamma):
            return self.case(v, lambda x: self.call_starred(f, args, dict(kwargs), [x] + stars[1:], n))
        c = self.content(v)
        if isinstance(c, Term) and c.op == "dict" and all(k.op == "const" for k, _ in c.args[0]):
            c = DictC([(k, w) for k, w in c.args[0]])
        elif isinstance(v, Term) and v.op == "dict" and all(k.op == "const" for k, _ in v.args[0]):
            c = DictC([(k, w) for k, w in v.args[0]])
        t = c if isinstance(c, Term) else v if isinstance(v, Term) else None
        if t is not None and t.op == "ite":
            return self.branch(t.args[0], lambda: self.call_starred(f, args, dict(kwargs), [t.args[1]] + stars[1:], n),
                               lambda: self.call_starred(f, args, dict(kwargs), [t.args[2]] + stars[1:], n))
        if isinstance(c, VGamma):
            return self.case(c, lambda x: self.call_starred(f, args, dict(kwargs), [x] + stars[1:], n))
        if isinstance(c, DictC):
            def go(items, kw):
                for i, (kk, vv) in enumerate(items):
                    vv = self.resolve(vv)
                    if vv is UNDEF:
                        continue
                    if isinstance(vv, VGamma) and _hasundef(vv):
                        rest = items[i + 1:]
                        return self.case(vv, lambda x: go(rest, kw if x is UNDEF else dict(kw, **{kk.args[0]: x})))
                    kw = dict(kw, **{kk.args[0]: vv})
                return self.call_starred(f, args, kw, stars[1:], n)
            return go(list(c.items), dict(kwargs))
        if "**" in kwargs:
            raise Unsupported("two unknown ** mappings")
        return self.call_starred(f, args, dict(kwargs, **{"**": v}), stars[1:], n)

    def callv(self, f, args, kwargs):
        f = self.resolve(f)
        if isinstance(f, VGamma):
            return self.case(f, lambda x: self.callv(x, args, kwargs))
        site = self.site
        try:
            return self.callv_(f, args, kwargs)
        finally:
            self.site = site

    def callv_(self, f, args, kwargs):
        if isinstance(f, VFunc):
            return self.call_func(f, args, kwargs)
        if isinstance(f, VBound):
            return self.callv(f.func, [f.obj] + list(args), kwargs)
        if isinstance(f, VPartial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.callv(f.func, list(f.args) + list(args), kw)
        if isinstance(f, VClass):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, VExt):
            return self.ext.call(self, f.name, args, kwargs)
        if isinstance(f, VMeth):
            return self.ext.method(self, f.obj, f.name, args, kwargs)
        if isinstance(f, VDeco):
            return self.ext.call_deco(self, f, args, kwargs)
        if isinstance(f, VStatic):
            return self.callv(f.func, args, kwargs)
        if isinstance(f, VRef):
            c = self.content(f)
            if isinstance(c, InstC):
                if self.classattr(c.cls, "__call__") is not None:
                    return self.callv(self.getattr(f, "__call__"), args, kwargs)
                return self.ext.call_value(self, self.t(f), args, kwargs)
        if isinstance(f, (Term, VRef)):
            t = self.t(f)
            if t.op == "ext":
                return self.ext.call(self, t.args[0], args, kwargs)
            return self.ext.call_value(self, t, args, kwargs)
        raise Unsupported("call of %r" % (f,))

    def bindargs(self, f, args, kwargs):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        extra = []
        for i, v in enumerate(args):
            if isinstance(v, Term) and v.op == "star":
                raise Unsupported("star argument")
            if i < len(params):
                env[params[i]] = v
            else:
                extra.append(v)
        if extra and a.vararg is None:
            self.event("bad-call", (f.qual, "too many positional arguments"))
            self.do_raise(self.exc("TypeError", const(f.qual)))
        kw = {}
        for k, v in kwargs.items():
            if k == "**":
                if a.kwarg is not None:
                    kw["**"] = v
                continue
            if k in [p.arg for p in a.args + a.kwonlyargs]:
                if k in env:
                    self.event("bad-call", (f.qual, "multiple values for %s" % k))
                    self.do_raise(self.exc("TypeError", const(f.qual)))
                env[k] = v
            elif a.kwarg is not None:
                kw[k] = v
            else:
                self.event("bad-call", (f.qual, "unexpected keyword %s" % k))
                self.do_raise(self.exc("TypeError", const(f.qual)))
        nd = len(f.defaults)
        for p, d in zip(params[len(params) - nd:], f.defaults):
            env.setdefault(p, d)
        for k in a.kwonlyargs:
            if k.arg not in env and k.arg in f.kwdefaults:
                env[k.arg] = f.kwdefaults[k.arg]
        missing = [p for p in params + [k.arg for k in a.kwonlyargs] if p not in env]
        if missing:
            self.event("bad-call", (f.qual, "missing %s" % ", ".join(missing)))
            self.do_raise(self.exc("TypeError", const(f.qual)))
        env = {k: self.bind(v) for k, v in env.items()}
        if a.vararg is not None:
            env[a.vararg.arg] = VTuple([self.bind(v) for v in extra])
        if a.kwarg is not None:
            if "**" in kw:
                rest = kw.pop("**")
                if kw:
                    raise Unsupported("mixed ** arguments")
                env[a.kwarg.arg] = rest
            else:
                env[a.kwarg.arg] = self.new(DictC([(const(k), self.bind(v)) for k, v in kw.items()]))
        return env

    def call_func(self, f, args, kwargs):
        over = self.opts.get("override", {}).get(f.qual)
        if over is not None:
            r = over(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        depth = sum(1 for x in self.frames if x.func == f.qual)
        if depth > 3 or len(self.frames) > MAXDEPTH:
            raise Unsupported("recursion in %s" % f.qual)
        self.inlined[f.qual] = self.inlined.get(f.qual, 0) + 1
        self.calls += 1
        env = self.bindargs(f, args, kwargs)
        self.nfid += 1
        fid = self.nfid
        self.parent[fid] = f.env
        fr = Frame(fid, f.qual, f.node)
        fr.mod = f.mod
        fr.defcls = f.cls
        params = [p.arg for p in f.node.args.posonlyargs + f.node.args.args]
        fr.selfv = env.get(params[0]) if params else None
        self.st.env[fid] = env
        prefix = self.st.pc
        self.frames.append(fr)
        site = self.site
        try:
            if isinstance(f.node, ast.Lambda):
                try:
                    v = self.ev(f.node.body)
                    fr.rets.append((self.st, v))
                except DeadPath:
                    pass
            else:
                gen = is_generator(f.node)
                if gen:
                    y = self.new(ListC(()))
                    self.mark_list(y)
                    self.st.env[fid]["$yield"] = y
                self.run_block(f.node.body)
                if self.st is not None:
                    fr.rets.append((self.st, NONE))
                if gen:
                    fr.rets = [(s, s.env[fid]["$yield"]) for s, v in fr.rets]
        finally:
            self.frames.pop()
            self.site = site
        self.st, v = self.merge_many(fr.rets, prefix)
        if self.st is None:
            raise DeadPath()
        self.st.env.pop(fid, None) if not self.captured(f.node) else None
        return v

    def captured(self, node):
        """does the function create closures that may outlive its frame?"""
        r = getattr(node, "_pf_capt", None)
        if r is None:
            r = any(isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not node for x in ast.walk(node))
            node._pf_capt = r
        return r

    def instantiate(self, c, args, kwargs):
        new_ = self.classattr(c, "__new__")
        ref = self.new(InstC(c, {}))
        init = self.classattr(c, "__init__")
        if init is not None:
            self.callv(VBound(ref, init), args, kwargs)
        elif c.extbases:
            self.ext.ext_init(self, ref, c, args, kwargs)
        elif self.classattr(c, "_fields") is not None or any(True for _ in ()):
            pass
        elif args or kwargs:
            ds = self.dataclass_fields(c)
            if ds is not None:
                a = {}
                names = [k for k, _ in ds]
                for k, v in zip(names, args):
                    a[k] = self.bind(v)
                for k, v in kwargs.items():
                    a[k] = self.bind(v)
                self.st.heap[ref.loc] = InstC(c, a)
            else:
                self.event("bad-call", (c.qual, "takes no arguments"))
                self.do_raise(self.exc("TypeError", const(c.qual)))
        return ref

    def dataclass_fields(self, c):
        for d in c.node.decorator_list:
            s = ast.unparse(d)
            if "dataclass" in s:
                return [(x.target.id, x.value) for x in c.node.body if isinstance(x, ast.AnnAssign)]
        return None


# ------------------------------------------------------------------ helpers
OPMETH = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow",
          "BitOr": "or", "BitAnd": "and", "BitXor": "xor", "MatMult": "matmul", "LShift": "lshift", "RShift": "rshift"}
EXC_BASES = {
    "KeyError": ("LookupError", "Exception", "BaseException"), "IndexError": ("LookupError", "Exception", "BaseException"),
    "UnboundLocalError": ("NameError", "Exception", "BaseException"), "ImportError": ("Exception", "BaseException"),
    "ModuleNotFoundError": ("ImportError", "Exception", "BaseException"),
    "ZeroDivisionError": ("ArithmeticError", "Exception", "BaseException"),
    "NotImplementedError": ("RuntimeError", "Exception", "BaseException"),
}


def is_generator(node):
    r = getattr(node, "_pf_gen", None)
    if r is None:
        r = False
        st = list(node.body)
        while st:
            x = st.pop()
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            st.extend(ast.iter_child_nodes(x))
        node._pf_gen = r
    return r


def _immutable(t):
    if t.op in ("num", "const", "nan", "inf", "pi", "E", "tuple", "ext", "exc", "cls", "func", "fmt", "str", "slice", "star",
                "isnone", "isinst", "eq", "raised", "len", "size", "shape", "phi"):
        return True
    return kind(t) in ("scalar", "int", "bool", "str", "none")


def _mergeable(t):
    return True


def _hasundef(v):
    if v is UNDEF:
        return True
    if isinstance(v, VGamma):
        return _hasundef(v.a) or _hasundef(v.b)
    return False


def _plain(ip, v):
    """gated value all of whose alternatives are numbers/arrays"""
    v = ip.resolve(v)
    if isinstance(v, VGamma):
        return _plain(ip, v.a) and _plain(ip, v.b)
    if isinstance(v, Term):
        return v.op not in ("const",) or isinstance(v.args[0], (bool, int, float))
    if isinstance(v, VRef):
        return isinstance(ip.content(v), Term)
    return False


def _allinst(c):
    if isinstance(c, GammaC):
        return _allinst(c.a) and _allinst(c.b)
    return isinstance(c, InstC)


def nonempty(n):
    return T.positive(n) or (n.op == "sum" and T.nonneg(sub(n, ONE)))


def kind_bool(v):
    return isinstance(v, Term) and (kind(v) == "bool" or T._isbool(v))


def boolarr(t):
    return t


def truth_term(t):
    if t.op == "const":
        return boolc(bool(t.args[0]))
    if t.op == "num":
        return boolc(numval(t) != 0)
    if t.op in ("nan", "inf", "pi", "E", "ext", "cls", "func", "inst"):
        return TRUE
    if t.op in ("tuple", "vec", "list", "dict", "set"):
        return boolc(len(t.args[0]) > 0)
    if t.op == "ite":
        return ite(t.args[0], truth_term(t.args[1]), truth_term(t.args[2]))
    k = kind(t)
    if k == "bool" or T._isbool(t):
        return t
    if k in ("scalar", "int"):
        return not_(T.eq(t, ZERO))
    if k == "str":
        return not_(T.eq(t, const("")))
    if k == "arr":
        return mk("truth", t)
    return mk("truth", t)


def quant(op, bs, body):
    bs = tuple(bs)
    if op == "exists":
        if body is FALSE:
            return FALSE
        if body.op == "or":
            return or_(*[quant("exists", bs, a) for a in body.args])
        free = [a for a in (body.args if body.op == "and" else (body,)) if not (T.bounds(a) & set(bs))]
        if body.op == "and" and free:
            dep = [a for a in body.args if T.bounds(a) & set(bs)]
            return and_(*(free + [quant("exists", bs, and_(*dep))]))
        if not (T.bounds(body) & set(bs)):
            return and_(body, *[not_(T.eq(b.args[1], ZERO)) for b in bs])
        if len(bs) == 1:
            m = A.mk_map(bs, body)
            return A.reduce_("any", m)
        return mk("exists", bs, body)
    if op == "forall":
        return not_(quant("exists", bs, not_(body)))
    if op == "bigsum":
        if not (T.bounds(body) & set(bs)):
            return mul(body, *[b.args[1] for b in bs])
        if len(bs) == 1:
            return A.reduce_("asum", A.mk_map(bs, body))
        return mk("bigsum", bs, body)
    return mk(op, bs, body)


def filtermap(bs, cond, v):
    """[v for b if cond] as a masked selection when possible"""
    if len(bs) == 1:
        m = A.mk_map(bs, cond)
        if v is bs[0] or (v.op == "getitem" and v.args[1] is bs[0] and bs[0] not in T.bounds(v.args[0])) or True:
            vm = A.mk_map(bs, v)
            if m.op != "map" and vm.op != "map":
                if vm.op == "iota":
                    return mk("where0", m)
                return getitem(vm, m)
    return mk("filtermap", tuple(bs), cond, v)
