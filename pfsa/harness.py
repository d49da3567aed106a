"""Analyse a piece of client (or reference) source text together with the package and collect its outcome."""
import sys
from .terms import *
from . import terms as T
from .interp import Interp, Source, State, DeadPath, Unsupported
from .values import *

sys.setrecursionlimit(20000)


class Outcome:
    """what a client snippet does, for every input of the declared kinds"""

    def __init__(self):
        self.value = None        # term (None: never returns normally)
        self.v = None            # abstract value
        self.pc = TRUE           # condition under which it returns (given the assumptions)
        self.raises = []         # (condition, exception term, site, stack)
        self.events = []
        self.it = None
        self.base = ()
        self.unsup = None
        self.args = {}

    def raise_cond(self, names=None):
        out = FALSE
        for g, e, site, stack in self.raises:
            if names is None or excname(e) in names:
                out = or_(out, g)
        return out


def excname(e):
    if e.op == "exc":
        return e.args[0]
    if e.op == "inst":
        return e.args[0].split(".")[-1]
    return e.op


class Text(Source):
    """the package plus one extra module holding a client snippet"""

    def __init__(self, base, text, mod="client"):
        self.root, self.package = base.root, base.package
        self.files = dict(base.files)
        self.files[mod] = ("<%s>" % mod, text)
        self.trees = base.trees if mod not in base.trees else {k: v for k, v in base.trees.items() if k != mod}
        self.trees = {k: v for k, v in base.trees.items() if k != mod}
        for m in base.files:
            if m not in self.trees:
                self.trees[m] = base.tree(m)


def mkparam(it, name, spec):
    """spec: a kind string ('float', 'int', 'arr1', ...), with ',pos' etc. suffixes; a Term; or a callable(it, name)"""
    if callable(spec):
        return spec(it, name)
    if isinstance(spec, Term):
        if kind(spec) == "arr":
            return it.new(spec, ("arg", name))
        return spec
    if spec is None or isinstance(spec, (bool,)):
        return const(spec)
    if isinstance(spec, (int, float)):
        return num(spec)
    if isinstance(spec, str) and spec.startswith("'"):
        return const(spec[1:-1])
    parts = spec.split(",")
    props = {}
    for p in parts[1:]:
        k, _, v = p.partition("=")
        props[k.strip()] = (True if not v else int(v) if v.isdigit() else v)
    if "len" in props and isinstance(props["len"], str):
        props["len"] = sym(props["len"], "int", pos=True)
    s = sym(name, parts[0], **props)
    if parts[0] in ("arr1", "arr2", "arr", "barr", "any") or parts[0].startswith("obj"):
        return it.new(s, ("arg", name))
    return s


def run(source, text, entry="client", params=None, assume=None, opts=None, mod="client"):
    """abstractly call `entry` of the snippet `text`"""
    params = params or {}
    src = Text(source, text, mod)
    o = dict(opts or {})
    it = Interp(src, o)
    out = Outcome()
    out.it = it
    try:
        fid = it.load(mod)
        it.handlers[0] = []
        it.events[:] = []
        f = it.st.env[fid][entry]
        args = {}
        for k, sp in params.items():
            args[k] = mkparam(it, k, sp)
        out.args = args
        if assume is not None:
            g = assume(it, args) if callable(assume) else assume
            lits = g.args if g.op == "and" else (g,)
            for l in lits:
                if l is not TRUE:
                    it.st.pc = it.st.pc + (l,)
        out.base = it.st.pc
        n = len(out.base)
        try:
            v = it.callv(f, [], args)
            out.v = v
            out.value = it.t(v)
            out.pc = and_(*it.st.pc[n:])
        except DeadPath:
            out.pc = FALSE
        for s, e, site, stack in it.handlers[0]:
            out.raises.append((and_(*s.pc[n:]), e, site, stack))
        out.events = list(it.events)
    except Unsupported as e:
        out.unsup = "%s at %s" % (e, it.site)
        out.events = list(it.events)
    return out


def abstract(name, nret=None, keep=None, arr=False):
    """override: stand for a package function by one uninterpreted result per argument tuple (its own behaviour is decided by its own rules)

    nret: number of results (None: a single value); keep: names of the parameters the result depends on (None: all)."""
    def over(it, f, args, kwargs):
        env = it.bindargs(f, list(args), dict(kwargs))
        call = mk("apply", name, tuple((k, it.t(v)) for k, v in sorted(env.items()) if keep is None or k in keep))

        def val(t):
            return it.new(t, ("call", name)) if arr else t
        if nret is None:
            return val(call)
        return VTuple([val(mk("getitem", call, num(i))) for i in range(nret)])
    return over
