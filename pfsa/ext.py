"""What the analysis knows about code outside the package: builtins, numpy, scipy, astropy, photutils, matplotlib.

A registered function has its parameter names (so that positional/keyword spelling and written-out defaults do
not matter) and either an exact meaning on terms or is an uninterpreted function of its arguments.  Anything
else becomes an `xcall` term, about which comparisons give no verdict unless both sides contain the same one.
"""
from fractions import Fraction as Fr
from .terms import *
from . import terms as T
from . import arrays as A
from .arrays import getitem, store as a_store, slc, concat, length, full, shape_, size_, lift
from .values import *

_pygetattr = getattr
format_ = format
REG = {}      # name -> (params [(name, default)], varkw, handler or None)
METH = {}     # method name -> same, first parameter is the object
CANON_CALLS = set()

# ------------------------------------------------------------------ special functions
def gamma_(x):
    if is_num(x) and numval(x).denominator == 1 and 1 <= numval(x) <= 20:
        r = 1
        for k in range(1, int(numval(x))):
            r *= k
        return num(r)
    return mk("gamma", x)


def gammainc_(a, x):
    if x is INF:
        return ONE
    if x is ZERO:
        return ZERO
    if x.op == "gammaincinv" and x.args[0] is a:
        return x.args[1]
    if x.op == "sum":
        pass
    return mk("gammainc", a, x)


def gammaincinv_(a, y):
    if y.op == "gammainc" and y.args[0] is a:
        return y.args[1]
    return mk("gammaincinv", a, y)


def round_(x, n=ZERO):
    if n is NONE:
        n = ZERO
    if x.op == "full":
        return full(x.args[0], round_(x.args[1], n))
    if kind(x) == "int" and is_num(n) and numval(n) >= 0:
        return x
    if x.op == "num" and is_num(n):
        return num(round(numval(x), int(numval(n))))
    if x is NAN or x is INF:
        return x
    if x.op == "ite" and kind(x.args[0]) != "arr":
        return ite(x.args[0], round_(x.args[1], n), round_(x.args[2], n))
    if x.op == "round" and x.args[1] is n:
        return x
    if n is ZERO and x.op == "sum":
        ip, rest = _intpart(x)
        if ip is not ZERO:
            return add(ip, round_(rest, n))
    return mk("round", x, n)


def _intpart(x):
    """x = (integer valued terms) + rest"""
    p = as_poly(x)
    ip = {m: c for m, c in p.items() if c.denominator == 1 and m != () and kind(from_poly({m: c})) == "int"}
    c0 = p.get((), 0)
    f = c0.numerator // c0.denominator if c0 else 0
    rest = {m: c for m, c in p.items() if m not in ip and m != ()}
    if c0 - f:
        rest[()] = c0 - f
    ipd = dict(ip)
    if f:
        ipd[()] = Fr(f)
    return from_poly(ipd), from_poly(rest)


def ceil_(x):
    if kind(x) == "int":
        return x
    if is_num(x):
        v = numval(x)
        return num(-((-v.numerator) // v.denominator))
    ip, rest = _intpart(x)
    if is_num(rest):
        return add(ip, ceil_(rest))
    if ip is not ZERO:
        return add(ip, mk("ceil", rest))
    return mk("ceil", x)


def floor_(x):
    if kind(x) == "int":
        return x
    if is_num(x):
        v = numval(x)
        return num(v.numerator // v.denominator)
    p = as_poly(x)
    if len(p) == 1:
        (m, c), = p.items()
        if c.numerator == 1 and c.denominator > 1:
            n = from_poly({m: Fr(1)})
            if kind(n) == "int":
                return floordiv_(n, num(c.denominator))
    ip, rest = _intpart(x)
    if is_num(rest):
        return add(ip, floor_(rest))
    if ip is not ZERO:
        return add(ip, floor_(rest))
    return mk("floor", x)


def trunc_(x):
    if x.op == "full":
        return full(x.args[0], trunc_(x.args[1]))
    if kind(x) == "int":
        return x
    if is_num(x):
        return num(int(numval(x)))
    if x.op in ("round", "floor", "ceil", "trunc") and (x.op != "round" or x.args[1] is ZERO):
        return x
    if x.op == "ite" and kind(x.args[0]) != "arr":
        return ite(x.args[0], trunc_(x.args[1]), trunc_(x.args[2]))
    if T.nonneg(x) and x.op == "sum":
        p = as_poly(x)
        if len(p) == 1:
            (m, c), = p.items()
            if c.numerator == 1 and c.denominator > 1 and kind(from_poly({m: Fr(1)})) == "int":
                return floor_(x)
    return mk("trunc", x)


def floordiv_(a, b):
    if is_num(a) and is_num(b) and numval(b) != 0:
        v = numval(a) / numval(b)
        return num(v.numerator // v.denominator)
    if b is ONE and kind(a) == "int":
        return a
    q = div(a, b)
    if kind(a) == "int" and kind(b) == "int" and kind(q) == "int":
        return q
    if is_num(b) and kind(a) == "int" and numval(b).denominator == 1:
        ip, rest = _intpart(div(a, b))
        if ip is not ZERO and rest is not ZERO:
            return add(ip, floordiv_(mul(rest, b), b))
    return mk("floordiv", a, b)


def mod_(a, b):
    if is_num(a) and is_num(b) and numval(b) != 0:
        va, vb = numval(a), numval(b)
        v = va / vb
        return num(va - vb * (v.numerator // v.denominator))
    if kind(a) == "int" and b is ONE:
        return ZERO
    if kind(a) == "int" and kind(b) == "int" and kind(div(a, b)) == "int":
        return ZERO
    if b.op == "num" and numval(b) == 2 and kind(a) == "int":       # parity
        return ite(eq(mk("mod", a, b), ZERO), ZERO, ONE)
    if b is ONE:
        i, rest = _intpart(a)
        if i is not ZERO:
            return mod_(rest, b)
    return mk("mod", a, b)


T._builders.update({"gamma": gamma_, "gammainc": gammainc_, "gammaincinv": gammaincinv_, "round": round_, "ceil": ceil_,
                    "floor": floor_, "trunc": trunc_, "floordiv": floordiv_, "mod": mod_})


# ------------------------------------------------------------------ registration helpers
def parse_sig(sig):
    ps, kw = [], False
    for p in sig.split():
        if p == "**":
            kw = True
            continue
        if p == "*":
            continue
        if "=" in p:
            n, d = p.split("=", 1)
            dv = eval(d, {"nan": NAN, "inf": INF, "REQ": None})
            ps.append((n, dv if isinstance(dv, Term) else num(dv) if isinstance(dv, (int, float)) and not isinstance(dv, bool) else const(dv)))
        else:
            ps.append((p, None))
    return ps, kw


def reg(names, sig):
    def deco(f):
        for n in names.split():
            REG[n] = parse_sig(sig) + (f,)
        return f
    return deco


def pure(name, sig, length=None, raises=True):
    REG[name] = parse_sig(sig) + (None,)
    CANON_CALLS.add(name)
    if length:
        FIXLEN[name] = length


def meth(names, sig):
    def deco(f):
        for n in names.split():
            METH[n] = parse_sig(sig) + (f,)
        return f
    return deco


def puremeth(name, sig, length=None):
    METH[name] = parse_sig(sig) + (None,)
    CANON_CALLS.add("method:" + name)
    if length:
        FIXLEN["method:" + name] = length


FIXLEN = {}


def bind_args(params, kw, args, kwargs, strict=True):
    """(dict name -> value with defaults filled, extra keywords, error)"""
    out, extra, err = {}, {}, None
    names = [p for p, _ in params]
    for i, a in enumerate(args):
        if i < len(names):
            out[names[i]] = a
        else:
            err = "too many positional arguments"
    for k, v in kwargs.items():
        if k in names:
            if k in out:
                err = "multiple values for %s" % k
            out[k] = v
        elif kw or k == "**":
            extra[k] = v
        else:
            err = "unexpected keyword %s" % k
            extra[k] = v
    starred = any(isinstance(a, Term) and a.op == "star" for a in args) or "**" in kwargs
    for p, d in params:
        if p not in out:
            if d is None:
                err = err or ("unknown arguments" if starred else "missing argument %s" % p)
            else:
                out[p] = d
    return out, extra, err


# ------------------------------------------------------------------ members of external modules
CONSTS = {"numpy.pi": PI, "math.pi": PI, "numpy.nan": NAN, "numpy.NaN": NAN, "math.nan": NAN, "numpy.inf": INF, "math.inf": INF,
          "numpy.e": E, "math.e": E, "numpy.newaxis": NONE, "scipy.pi": PI}
ALIAS = {"numpy.absolute": "numpy.abs", "numpy.around": "numpy.round", "numpy.amin": "numpy.min", "numpy.amax": "numpy.max",
         "numpy.round_": "numpy.round", "numpy.bitwise_not": "numpy.invert", 
         "numpy.bitwise_or": "numpy.logical_or", "numpy.bitwise_and": "numpy.logical_and", "numpy.true_divide": "numpy.divide",
         "numpy.remainder": "numpy.mod", "numpy.radians": "numpy.deg2rad", "numpy.degrees": "numpy.rad2deg",
         "numpy.asanyarray": "numpy.asarray", "numpy.ascontiguousarray": "numpy.asarray", "numpy.fabs": "numpy.abs",
         "astropy.nddata.utils.Cutout2D": "astropy.nddata.Cutout2D", "astropy.nddata.ccddata.CCDData": "astropy.nddata.CCDData",
         "astropy.table.table.Table": "astropy.table.Table", "astropy.nddata.utils.block_reduce": "astropy.nddata.block_reduce",
         "astropy.stats.sigma_clipping.sigma_clip": "astropy.stats.sigma_clip",
         "astropy.modeling.functional_models.Sersic2D": "astropy.modeling.models.Sersic2D",
         "astropy.convolution.discretize_model": "astropy.convolution.utils.discretize_model",
         "astropy.modeling.core.FittableModel": "astropy.modeling.FittableModel", "astropy.modeling.core.custom_model": "astropy.modeling.custom_model",
         "astropy.modeling.parameters.Parameter": "astropy.modeling.Parameter",
         "photutils.segmentation.catalog.SourceCatalog": "photutils.segmentation.SourceCatalog",
         "scipy.special._ufuncs.gammaincinv": "scipy.special.gammaincinv", "math.fabs": "numpy.abs", "math.sqrt": "numpy.sqrt",
         "math.exp": "numpy.exp", "math.cos": "numpy.cos", "math.sin": "numpy.sin", "math.log10": "numpy.log10", "math.ceil": "numpy.ceil",
         "math.floor": "numpy.floor", "math.isnan": "numpy.isnan", "math.hypot": "numpy.hypot", "math.radians": "numpy.deg2rad",
         "math.pow": "numpy.power", "math.tan": "numpy.tan", "math.trunc": "numpy.trunc", "math.gamma": "scipy.special.gamma",
         "math.isfinite": "numpy.isfinite", "math.degrees": "numpy.rad2deg", "math.log2": "numpy.log2", "math.atan2": "numpy.arctan2",
         "operator.add": "numpy.add", "operator.or_": "numpy.logical_or", "operator.and_": "numpy.logical_and", "operator.mul": "numpy.multiply",
         "operator.sub": "numpy.subtract", "operator.truediv": "numpy.divide", "operator.neg": "numpy.negative", "operator.abs": "numpy.abs",
         "numpy.bool": "numpy.bool_", "matplotlib.pyplot.plt": "matplotlib.pyplot", "numpy.deepcopy": "copy.deepcopy",
         "numpy.ma.core.MaskedArray": "numpy.ma.MaskedArray", "numpy.concat": "numpy.concatenate", "math.fsum": "builtins.sum"}


def member(ip, base, name):
    full_ = base + "." + name if base else name
    full_ = ALIAS.get(full_, full_)
    if full_ in CONSTS:
        return CONSTS[full_]
    if full_ in ("astropy.stats.gaussian_sigma_to_fwhm", "astropy.stats.gaussian_fwhm_to_sigma"):
        k = mul(num(2), pow_(mul(num(2), ln(num(2))), num(Fr(1, 2))))
        return k if full_.endswith("to_fwhm") else div(ONE, k)
    if full_.startswith("astropy.modeling.optimizers.DEFAULT_") or full_.startswith("astropy.stats.gaussian_"):
        return mk("extconst", full_)
    return VExt(full_)


BUILTINS = {"len", "min", "max", "sum", "abs", "float", "int", "bool", "str", "list", "tuple", "dict", "set", "range", "zip",
            "enumerate", "sorted", "reversed", "isinstance", "type", "hasattr", "getattr", "setattr", "print", "round", "any",
            "all", "map", "filter", "pow", "divmod", "callable", "iter", "next", "repr", "format", "id", "property",
            "staticmethod", "classmethod", "object", "issubclass", "frozenset", "slice", "bytes", "vars", "locals", "globals",
            "open", "input", "delattr", "complex", "ord", "chr", "hash", "super", "__import__", "memoryview"}
EXCS = {"Exception", "ValueError", "TypeError", "KeyError", "IndexError", "AssertionError", "RuntimeError", "AttributeError",
        "NameError", "NotImplementedError", "ImportError", "ZeroDivisionError", "Warning", "UserWarning", "DeprecationWarning",
        "RuntimeWarning", "StopIteration", "ArithmeticError", "LookupError", "OSError", "IOError", "FileNotFoundError",
        "ModuleNotFoundError", "FutureWarning", "BaseException", "KeyboardInterrupt", "OverflowError", "FloatingPointError",
        "UnboundLocalError", "FileExistsError", "PermissionError", "UnicodeError"}


def builtin(name):
    if name in BUILTINS or name in EXCS:
        return VExt("builtins." + name)
    if name == "NotImplemented":
        return VExt("builtins.NotImplemented")
    if name == "Ellipsis":
        return const(Ellipsis)
    if name in ("__name__", "__file__", "__doc__"):
        return const(name)
    return None


# ------------------------------------------------------------------ calls
def call(ip, name, args, kwargs):
    name = ALIAS.get(name, name)
    if name.startswith("builtins.") and name.split(".")[1] in EXCS:
        return ip.exc(name.split(".")[1], *[ip.t(a) for a in args])
    r = REG.get(name)
    if r is None:
        return xcall(ip, name, args, kwargs)
    params, kw, h = r
    vals, extra, err = bind_args(params, kw, args, kwargs)
    if err:
        if err != "unknown arguments":
            ip.event("bad-call", (name, err))
        return xcall(ip, name, args, kwargs)
    if h is None:
        items = [(p, ip.t(vals[p])) for p, _ in params]
        items += [(k, ip.t(v)) for k, v in sorted(extra.items())]
        t = mk("call", name, tuple(items))
        out_event(ip, name, t, vals)
        return t
    if extra:
        return h(ip, kwextra=extra, **vals)
    return h(ip, **vals)


QUIET_PREFIX = ("numpy.", "math.", "builtins.", "scipy.special.", "operator.", "copy.", "itertools.", "functools.", "re.")


def out_event(ip, name, t, vals=None):
    if not name.startswith(QUIET_PREFIX) or name.startswith("numpy.random"):
        ip.event("extcall", (name, t))
        if ip.tryraise and not ip.quiet:
            ip.tryraise[-1].append(t)
        elif ip.tryraise:
            ip.tryraise[-1].append(t)


MUTATING_EXT = {"numpy.put": [0], "numpy.place": [0], "numpy.copyto": [0], "numpy.fill_diagonal": [0], "numpy.putmask": [0],
                "random.shuffle": [0], "numpy.random.shuffle": [0]}


def xcall(ip, name, args, kwargs):
    items = [(str(i), ip.t(a)) for i, a in enumerate(args)] + [(k, ip.t(v)) for k, v in sorted(kwargs.items())]
    if name == "matplotlib.pyplot.subplots" and ip.opts.get("figures"):
        ip.nfigs += 1
        items.append(("#", num(ip.nfigs)))
    t = mk("xcall", name, tuple(items))
    for i in MUTATING_EXT.get(name, ()):
        if i < len(args) and isinstance(args[i], VRef):
            ip.write(args[i], mk("xmut", name, ip.t(args[i]), tuple(items)), name)
    if name.startswith("numpy.") and name.endswith(".at") and args and isinstance(args[0], VRef):
        ip.write(args[0], mk("xmut", name, ip.t(args[0]), tuple(items)), name)
    o = kwargs.get("out")
    if isinstance(o, VRef):
        ip.write(o, t, name + "(out=)")
    out_event(ip, name, t)
    if name in ("numpy.reshape", "numpy.transpose", "numpy.atleast_2d", "numpy.broadcast_to", "numpy.swapaxes", "numpy.ma.asarray", "numpy.moveaxis", "numpy.expand_dims") and args:
        return view(ip, args[0], t)
    return t


def call_value(ip, t, args, kwargs):
    """call of a value: interpolators, models, bound methods of external objects"""
    if t.op == "ite" and kind(t.args[0]) != "arr":
        return ip.branch(t.args[0], lambda: call_value(ip, t.args[1], args, kwargs), lambda: call_value(ip, t.args[2], args, kwargs))
    if t.op == "attr":
        return method(ip, t.args[0], t.args[1], args, kwargs)
    if t.op == "call" and t.args[0] == "scipy.interpolate.interp1d" and len(args) == 1 and not kwargs:
        x = ip.t(args[0])
        r = lift(lambda u: interp_(t, u), x)
        return r if r is not None else interp_(t, x)
    if t.op == "call" and t.args[0] == "scipy.interpolate.interp1d" and kwargs and list(kwargs) == ["x"] and not args:
        return interp_(t, ip.t(kwargs["x"]))
    items = [(str(i), ip.t(a)) for i, a in enumerate(args)] + [(k, ip.t(v)) for k, v in sorted(kwargs.items())]
    r = mk("call", "apply", (("f", t),) + tuple(items))
    out_event(ip, "apply", r)
    return r


def interp_(f, x):
    d = dict(f.args[1])
    if x is NAN:
        return NAN
    if x.op == "ite" and kind(x.args[0]) != "arr":
        return ite(x.args[0], interp_(f, x.args[1]), interp_(f, x.args[2]))
    return mk("interp", f, x)


T._builders["interp"] = interp_


def call_deco(ip, d, args, kwargs):
    """calling a class made by an external decorator (astropy custom models): an instance term"""
    return xcall(ip, "construct:" + d.func.qual, args, kwargs) if isinstance(d.func, VFunc) else \
        xcall(ip, "construct", [d] + list(args), kwargs)


# ------------------------------------------------------------------ methods
ARRAY_METHODS = {"sum", "min", "max", "mean", "std", "var", "any", "all", "argmin", "argmax", "round", "clip", "astype", "copy",
                 "argsort", "cumsum", "nonzero", "ravel", "flatten", "reshape", "squeeze", "transpose", "tolist", "item", "filled",
                 "fill", "take", "dot", "is_integer", "prod", "searchsorted", "repeat", "sort"}


def method(ip, obj, name, args, kwargs):
    if isinstance(obj, VGamma):
        return ip.case(obj, lambda o: method(ip, o, name, args, kwargs))
    if isinstance(obj, VSuper):
        c = ip.content(obj.obj) if isinstance(obj.obj, VRef) else None
        if name == "__init__":
            return ext_init(ip, obj.obj, obj.cls, args, kwargs)
        items = [("self", ip.t(obj.obj))] + [(str(i), ip.t(a)) for i, a in enumerate(args)] + [(k, ip.t(v)) for k, v in sorted(kwargs.items())]
        t = mk("call", "super:" + name, tuple(items))
        out_event(ip, "super:" + name, t)
        return t
    c = ip.content(obj) if isinstance(obj, VRef) else None
    if isinstance(c, ListC):
        return list_method(ip, obj, c, name, args, kwargs)
    if isinstance(c, DictC):
        return dict_method(ip, obj, c, name, args, kwargs)
    if isinstance(c, SetC):
        return set_method(ip, obj, c, name, args, kwargs)
    if isinstance(obj, VTuple):
        if name == "index":
            return index_of(ip, obj, args[0])
        if name == "count":
            return mk("xcall", "count", (("0", ip.t(obj)), ("1", ip.t(args[0]))))
    if isinstance(obj, VExt):
        return call(ip, obj.name + "." + name, args, kwargs)
    t = ip.t(obj)
    if t.op in ("tuple", "vec") and name == "index":
        return index_of(ip, VTuple(t.args[0]), args[0])
    if isinstance(c, Term) and isinstance(obj, VRef) and ip.is_list(obj) or t.op in ("map",) and name in ("append", "extend"):
        r = listterm_method(ip, obj, t, name, args, kwargs)
        if r is not None:
            return r
    if t.op == "const" and isinstance(t.args[0], str):
        return str_method(ip, t, name, args, kwargs)
    if kind(t) == "str" or t.op in ("str", "fmt"):
        return str_method(ip, t, name, args, kwargs)
    if t.op == "dict" and name in ("keys", "values", "items", "get"):
        return dict_method(ip, obj, DictC([(k, v) for k, v in t.args[0]]), name, args, kwargs)
    if t.op in ("call", "xcall") and t.args[0] in POOLS + THREADS:
        r = pool_method(ip, t, name, args, kwargs)
        if r is not None:
            return r
    k = kind(t)
    if name in ARRAY_METHODS and k != "obj":
        r = array_method(ip, obj, t, name, args, kwargs)
        if r is not None:
            return r
    if name in ("update", "pop", "setdefault", "clear") and isinstance(obj, VRef):
        if name == "update":
            other = ip.t(args[0]) if args else mk("dict", tuple((const(k_), ip.t(v)) for k_, v in sorted(kwargs.items())))
            ip.write(obj, dictupd_(t, other), ".update()")
            return NONE
        if name == "pop":
            ip.write(obj, mk("dictdel", t, ip.t(args[0])) if args else mk("xmut", "pop", t), ".pop()")
            return getitem(t, ip.t(args[0])) if args else mk("xcall", "pop", (("0", t),))
    if name in ("append", "extend", "insert", "remove", "sort", "reverse", "fill", "add", "resize", "partition", "setflags",
                "add_column", "add_row", "remove_column", "remove_columns", "rename_column", "keep_columns", "setdefault", "clear", "discard",
                "relabel_consecutive", "remove_labels", "keep_labels", "reassign_label", "reassign_labels", "remove_border_labels", "relabel") and isinstance(obj, VRef):
        items = tuple((str(i), ip.t(a)) for i, a in enumerate(args)) + tuple((k_, ip.t(v)) for k_, v in sorted(kwargs.items()))
        ip.write(obj, mk("xmut", name, t, items), "." + name + "()")
        return mk("xcall", "method:" + name, (("self", t),) + items)
    r = METH.get(name)
    if r is not None:
        params, kw, h = r
        vals, extra, err = bind_args(params, kw, args, kwargs)
        if not err:
            if h is not None:
                return h(ip, obj, **vals)
            items = [("self", t)] + [(p, ip.t(vals[p])) for p, _ in params] + [(k_, ip.t(v)) for k_, v in sorted(extra.items())]
            rt = mk("call", "method:" + name, tuple(items))
            out_event(ip, "method:" + name, rt)
            return rt
        if err != "unknown arguments":
            ip.event("bad-call", ("method:" + name, err))
    items = [("self", t)] + [(str(i), ip.t(a)) for i, a in enumerate(args)] + [(k_, ip.t(v)) for k_, v in sorted(kwargs.items())]
    rt = mk("xcall", "method:" + name, tuple(items))
    o = kwargs.get("out")
    if isinstance(o, VRef):
        ip.write(o, rt, "." + name + "(out=)")
    out_event(ip, "method:" + name, rt)
    if name in VIEWS and kind(t) == "arr":
        return view(ip, obj, rt)
    return rt


VIEWS = {"ravel", "reshape", "squeeze", "transpose", "swapaxes", "view", "diagonal"}


def view(ip, obj, t):
    """a result that may share memory with obj"""
    r = ip.new(t)
    if isinstance(obj, VRef):
        root = ip.root(obj).loc
        o = ip.origin.get(root)
        if o is not None:
            ip.origin[r.loc] = o
        ip.viewlocs[r.loc] = root
    return r


def array_method(ip, obj, t, name, args, kwargs):
    if name == "copy":
        if not args and not kwargs:
            return ip.new(t)
    if name == "fill" and isinstance(obj, VRef):
        ip.write(obj, full(shape_(t), ip.t(args[0])), ".fill()")
        return NONE
    if name == "sort" and isinstance(obj, VRef):
        ip.write(obj, mk("sorted", t), ".sort()")
        return NONE
    if name == "tolist":
        r = ip.new(t)
        ip.mark_list(r)
        return r
    if name == "item" and not args:
        return t
    if name == "is_integer" and not args and kind(t) in ("scalar", "int"):
        return TRUE if kind(t) == "int" else eq(mk("mod", t, ONE), ZERO)
    if name == "astype":
        vals, extra, err = bind_args(parse_sig("dtype order='K' casting='unsafe' subok=True copy=True")[0], False, args, kwargs)
        if err:
            return None
        return ip.new(cast(ip, t, vals["dtype"]))
    if name in ("filled", "compressed") and t.op == "masked":
        if name == "compressed":
            return ip.new(A.getitem(t.args[0], not_(t.args[1])))
        v = ip.t(args[0]) if args else ip.t(kwargs["fill_value"]) if "fill_value" in kwargs else mk("xcall", "default_fill_value", (("0", t.args[0]),))
        return elementwise(ip, lambda x, y, z: ite(x, y, z), tobool(t.args[1]), v, t.args[0])
    if name == "filled":
        v = ip.t(args[0]) if args else ip.t(kwargs["fill_value"]) if "fill_value" in kwargs else NONE
        return ip.new(mk("call", "method:filled", (("self", t), ("fill_value", v))))
    if name in ("ravel", "flatten", "squeeze"):
        if A.ndim(t) == 1 and not args:
            return ip.new(t) if name == "flatten" else view(ip, obj, t)
        return (lambda x: x if name == "flatten" else view(ip, obj, x))(mk("xcall", "method:" + name, (("self", t),) + tuple((str(i), ip.t(a)) for i, a in enumerate(args))))
    if name == "nonzero":
        return call(ip, "numpy.where", [obj], {})
    fn = "numpy." + name
    if fn in REG:
        return call(ip, fn, [obj] + list(args), kwargs)
    return None


def index_of(ip, seq, x):
    items = ip.iterlist(seq)
    tx = ip.t(x)
    if items is not None:
        for i, it in enumerate(items):
            g = eq(ip.t(it), tx)
            if g is TRUE:
                return num(i)
            if g is not FALSE:
                break
        else:
            ip.do_raise(ip.exc("ValueError"))
    return mk("call", "index_of", (("seq", ip.t(seq)), ("x", tx)))


def list_method(ip, obj, c, name, args, kwargs):
    if name == "append":
        ip.write(obj, ListC(c.items + (ip.bind(args[0]),)), ".append()")
        return NONE
    if name == "extend":
        it = ip.iterlist(args[0])
        if it is not None:
            ip.write(obj, ListC(c.items + tuple(ip.bind(x) for x in it)), ".extend()")
        else:
            ip.write(obj, concat(ip.cterm(c), ip.t(args[0])), ".extend()")
            ip.mark_list(ip.root(obj))
        return NONE
    if name == "insert":
        i = ip.t(args[0])
        if i.op == "num":
            k = int(numval(i))
            it = list(c.items)
            it.insert(k, ip.bind(args[1]))
            ip.write(obj, ListC(it), ".insert()")
            return NONE
    if name == "pop":
        it = list(c.items)
        i = ip.t(args[0]) if args else num(-1)
        if i.op == "num" and it:
            v = it.pop(int(numval(i)))
            ip.write(obj, ListC(it), ".pop()")
            return v
    if name == "copy":
        return ip.new(ListC(c.items))
    if name == "index":
        return index_of(ip, obj, args[0])
    if name == "reverse":
        ip.write(obj, ListC(tuple(reversed(c.items))), ".reverse()")
        return NONE
    if name == "clear":
        ip.write(obj, ListC(()), ".clear()")
        return NONE
    if name == "remove":
        tx = ip.t(args[0])
        it = list(c.items)
        for k, x in enumerate(it):
            g = eq(ip.t(x), tx)
            if g is TRUE:
                del it[k]
                ip.write(obj, ListC(it), ".remove()")
                return NONE
            if g is not FALSE:
                raise Unsupported("list.remove")
        ip.do_raise(ip.exc("ValueError"))
    if name == "sort":
        ip.write(obj, mk("sorted", ip.cterm(c)), ".sort()")
        return NONE
    t = ip.cterm(c)
    return mk("xcall", "method:" + name, (("self", t),) + tuple((str(i), ip.t(a)) for i, a in enumerate(args)))


def listterm_method(ip, obj, t, name, args, kwargs):
    if name == "append":
        ip.write(obj, concat(t, mk("vec", (ip.t(args[0]),))), ".append()")
        return NONE
    if name == "extend":
        ip.write(obj, concat(t, ip.t(args[0])), ".extend()")
        return NONE
    if name == "copy":
        r = ip.new(t)
        ip.mark_list(r)
        return r
    return None


def dict_method(ip, obj, c, name, args, kwargs):
    if name == "keys":
        return ip.new(ListC([k for k, _ in c.items]))
    if name == "values":
        return ip.new(ListC([v for _, v in c.items]))
    if name == "items":
        return ip.new(ListC([VTuple([k, v]) for k, v in c.items]))
    if name == "copy":
        return ip.new(DictC(c.items))
    if name == "get":
        k = ip.t(args[0])
        d = args[1] if len(args) > 1 else kwargs.get("default", NONE)
        v = c.get(k)
        if v is not None:
            return v
        if k.op in ("const", "num") and all(kk.op in ("const", "num") for kk, _ in c.items):
            return d
        val = d
        for kk, vv in reversed(c.items):
            val = ip.mergeval(eq(k, kk), vv, val)
        return val
    if name in ("update",):
        srcs = list(args)
        for s in srcs:
            s = ip.resolve(s)
            if isinstance(s, VGamma):
                ip.case(s, lambda x: dict_method(ip, obj, ip.content(obj), "update", [x], {}) or NONE)
                continue
            sc = ip.content(s)
            cur = ip.content(obj)
            if isinstance(sc, DictC):
                for k, v in sc.items:
                    cur = ip.dset(cur, k, v)
                ip.write(obj, cur, ".update()")
            else:
                it = ip.iterlist(s)
                if it is not None and all(isinstance(x, VTuple) and len(x.items) == 2 for x in it):
                    for x in it:
                        cur = ip.dset(cur, ip.t(x.items[0]), x.items[1])
                    ip.write(obj, cur, ".update()")
                else:
                    ip.write(obj, dictupd_(ip.cterm(cur), ip.t(s)), ".update()")
        if kwargs:
            cur = ip.content(obj)
            for k, v in kwargs.items():
                cur = cur.set(const(k), ip.bind(v))
            ip.write(obj, cur, ".update()")
        return NONE
    if name == "pop":
        k = ip.t(args[0])
        v = c.get(k)
        if v is not None:
            ip.write(obj, c.drop(k), ".pop()")
            return v
        if len(args) > 1:
            return args[1]
        ip.do_raise(ip.exc("KeyError", k))
    if name == "setdefault":
        k = ip.t(args[0])
        v = c.get(k)
        if v is None:
            v = ip.bind(args[1]) if len(args) > 1 else NONE
            ip.write(obj, ip.dset(c, k, v), ".setdefault()")
        return v
    if name == "clear":
        ip.write(obj, DictC(()), ".clear()")
        return NONE
    return mk("xcall", "method:" + name, (("self", ip.cterm(c)),) + tuple((str(i), ip.t(a)) for i, a in enumerate(args)))


def set_method(ip, obj, c, name, args, kwargs):
    if name == "add":
        t = ip.t(args[0])
        if all(ip.t(x) is not t for x in c.items):
            ip.write(obj, SetC(c.items + (args[0],)), ".add()")
        return NONE
    return mk("xcall", "method:" + name, (("self", ip.cterm(c)),) + tuple((str(i), ip.t(a)) for i, a in enumerate(args)))


def mkfmt(v, spec="", conv=None):
    """one formatted value; '' where the text is known"""
    if conv in ("s", "a") or conv == -1:
        conv = None
    if conv in ("r", 114):
        return mk("fmt", v, "!r" + spec)
    if spec in ("", "s"):
        if kind(v) == "str" or v.op == "str":
            return v
        if v.op == "const":
            return const(str(v.args[0]))
        if v.op == "num" and v.args[0].denominator == 1:
            return const(str(int(v.args[0])))
        return mk("fmt", v, "")
    if v.op == "const" and isinstance(v.args[0], str):
        try:
            return const(format_(v.args[0], spec))
        except ValueError:
            pass
    if v.op == "num":
        try:
            return const(format_(int(v.args[0]) if spec[-1:] == "d" else float(v.args[0]), spec))
        except ValueError:
            pass
    return mk("fmt", v, spec)


def mkstr(parts):
    """text of its parts, adjacent known texts joined"""
    out = []
    for p in parts:
        for q in (p.args[0] if p.op == "str" and isinstance(p.args[0], tuple) else (p,)):
            if q.op == "const" and out and out[-1].op == "const":
                out[-1] = const(str(out[-1].args[0]) + str(q.args[0]))
            elif q.op == "const":
                if str(q.args[0]):
                    out.append(const(str(q.args[0])))
            else:
                out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and (out[0].op in ("const", "str") or kind(out[0]) == "str" and out[0].op != "fmt"):
        return out[0]
    return mk("str", tuple(out))


def percent(fmt, vals):
    """'%' formatting; None where the directives are not understood"""
    import re
    out, pos, i = [], 0, 0
    for m in re.finditer(r"%(?:([-#0 +]*\d*(?:\.\d+)?)([sdfegrxi])|(%))", fmt):
        if "%" in fmt[pos:m.start()]:
            return None
        out.append(const(fmt[pos:m.start()]))
        pos = m.end()
        if m.group(3):
            out.append(const("%"))
            continue
        if i >= len(vals):
            return None
        spec, c = m.group(1), m.group(2)
        if spec.strip("0123456789."):
            return None
        if c in "sr":
            if spec:
                return None
            out.append(mkfmt(vals[i], "", c))
        else:
            out.append(mkfmt(vals[i], spec + ("d" if c == "i" else c)))
        i += 1
    if "%" in fmt[pos:] or i != len(vals):
        return None
    return mkstr(out + [const(fmt[pos:])])


def braces(fmt, args, kwargs):
    """str.format; None where the fields are not understood"""
    import string
    out, auto = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            if lit:
                out.append(const(lit))
            if field is None:
                continue
            if field == "":
                v, auto = args[auto], auto + 1
            elif field.isdigit():
                v = args[int(field)]
            else:
                v = kwargs[field]
            if "{" in spec:
                return None
            out.append(mkfmt(v, spec, conv))
    except (ValueError, KeyError, IndexError):
        return None
    return mkstr(out)


def str_method(ip, t, name, args, kwargs):
    ts = [ip.t(a) for a in args]
    if name == "format":
        r = braces(t.args[0], ts, {k: ip.t(v) for k, v in kwargs.items()}) if t.op == "const" else None
        return r if r is not None else mk("str", (t,) + tuple(ts) + tuple(ip.t(v) for _, v in sorted(kwargs.items())))
    if name == "join" and t.op == "const" and len(ts) == 1 and ts[0].op in ("tuple", "list", "vec") and \
            all(kind(x) == "str" for x in ts[0].args[0]):
        parts = []
        for i, x in enumerate(ts[0].args[0]):
            parts += ([t] if i else []) + [x]
        return mkstr(parts)
    if t.op == "const" and all(x.op == "const" for x in ts) and not kwargs and \
            name in ("lower", "upper", "strip", "startswith", "endswith", "replace", "split", "isdigit", "title", "join"):
        r = _pygetattr(t.args[0], name)(*[x.args[0] for x in ts])
        if isinstance(r, list):
            return ip.new(ListC([const(x) for x in r]))
        return const(r)
    if name in ("lower", "upper", "strip", "title", "isdigit", "casefold"):
        if t.op == "ite":
            return ite(t.args[0], str_method(ip, t.args[1], name, args, kwargs), str_method(ip, t.args[2], name, args, kwargs))
        return mk("strm", name, t)
    return mk("xcall", "str." + name, (("self", t),) + tuple((str(i), a) for i, a in enumerate(ts)))


# ------------------------------------------------------------------ attributes
MODELPARAMS = {
    "astropy.modeling.models.Sersic2D": ("amplitude", "r_eff", "n", "x_0", "y_0", "ellip", "theta"),
    "astropy.modeling.models.Gaussian2D": ("amplitude", "x_mean", "y_mean", "x_stddev", "y_stddev", "theta"),
}


def attr_term(ip, c, name):
    if c.op == "ite" and kind(c.args[0]) != "arr":
        return ite(c.args[0], attr_term(ip, c.args[1], name), attr_term(ip, c.args[2], name))
    if c.op == "setattr":
        if c.args[1] == name:
            return c.args[2]
        return attr_term(ip, c.args[0], name)
    if c.op == "masked" and name in ("data", "mask"):
        return c.args[0 if name == "data" else 1]
    if name == "data" and kind(c) == "arr":
        return c
    if c.op == "inst":
        for k, v in c.args[1]:
            if k == name:
                return v
    d = ip.objattrs.get(c) if ip is not None else None
    if d and name in d:
        v = d[name]
        return v if isinstance(v, Term) else ip.t(v)
    if c.op == "call" and c.args[0] == "astropy.modeling.Parameter" and name in ("default", "name"):
        return dict(c.args[1])[name]
    if c.op == "call" and c.args[0] == "astropy.nddata.Cutout2D" and name == "shape":
        return mk("attr", c, "shape")
    if c.op == "call" and c.args[0] in MODELPARAMS:
        ps = MODELPARAMS[c.args[0]]
        d_ = dict(c.args[1])
        if name == "param_names":
            return mk("tuple", tuple(const(p) for p in ps))
        if name == "n_inputs":
            return num(2)
        if name == "parameters" and all(p in d_ for p in ps):
            return mk("vec", tuple(d_[p] for p in ps))
    r = mk("attr", c, name)
    if name == "data" and c.op == "call" and c.args[0] == "astropy.nddata.Cutout2D":
        T._setkind(r, "arr")
    return r


def set_attr_term(ip, t, name, v):
    if t.op == "setattr" and t.args[1] == name:
        return set_attr_term(ip, t.args[0], name, v)
    if t.op == "setattr" and t.args[1] > name:
        return mk("setattr", set_attr_term(ip, t.args[0], name, v), t.args[1], t.args[2])
    if attr_term(ip, t, name) is v:
        return t
    return mk("setattr", t, name, v)


def getattr(ip, b, name):      # noqa: A001  (shadows the builtin on purpose inside this module)
    t = ip.t(b)
    d = ip.objattrs.get(t)
    if d and name in d:
        v = d[name]
        return VRef(None, b, ("attr", name)) if isinstance(v, Term) and kind(v) == "arr" and isinstance(b, VRef) else v
    if t.op == "ite" and kind(t.args[0]) != "arr" and not isinstance(b, VRef):
        return ip.branch(t.args[0], lambda: getattr(ip, t.args[1], name), lambda: getattr(ip, t.args[2], name))
    if t.op == "boundm" or t.op == "func":
        return mk("attr", t, name)
    if name == "__name__" and t.op == "type":
        return mk("attr", t, name)
    if name == "shape":
        return shape_attr(ip, t)
    if name == "size" and kind(t) != "obj":
        return size_(t)
    if name == "ndim" and A.ndim(t) is not None:
        return num(A.ndim(t))
    if name == "T" and A.ndim(t) == 1:
        return b
    if name == "T" and t.op == "argwhere":
        return mk("where", t.args[0])
    if name in LISTM and (isinstance(b, VRef) and not isinstance(ip.content(b), Term)):
        return VMeth(b, name)
    if name in ("value", "data") and t.op == "vec" and (not isinstance(b, VRef) or isinstance(ip.content(b), Term)):
        return b         # the numbers of a table column
    if t.op in ("vec", "dict", "set", "const") or kind(t) == "str":
        return VMeth(b, name)
    if name in ARRAY_METHODS or name in METH or name in LISTM:
        return VMeth(b, name)
    if isinstance(b, VRef):
        return VRef(None, b, ("attr", name))
    return attr_term(ip, t, name)


LISTM = {"append", "extend", "insert", "pop", "update", "setdefault", "remove", "sort", "reverse", "add", "clear", "index", "keys", "values",
         "items", "get", "copy", "lower", "upper", "split", "isdigit", "format", "join", "count", "to", "write", "strip", "startswith", "endswith",
         "add_column", "add_row", "remove_column", "remove_columns", "rename_column", "keep_columns", "discard", "popitem", "fill", "replace",
         "relabel_consecutive", "remove_labels", "keep_labels", "reassign_label", "reassign_labels", "remove_border_labels", "relabel"}


def shape_attr(ip, t):
    d = ip.objattrs.get(t)
    if d and "shape" in d:
        return d["shape"]
    if t.op == "ite" and kind(t.args[0]) != "arr":
        return ite(t.args[0], ip.t(shape_attr(ip, t.args[1])), ip.t(shape_attr(ip, t.args[2])))
    s = shape_(t)
    if s.op == "tuple":
        return VTuple(s.args[0])
    n = A.ndim(t)
    if n is not None:
        return VTuple([mk("dim", s.args[0] if s.op == "shape" else s, num(i)) for i in range(n)])
    return s


def inst_attr(ip, b, c, name):
    """attribute an external base class provides"""
    d = ip.opts.get("instattrs", {})
    t = mk("attr", mk("self", c.cls.qual), name)
    if name in EXT_METHODS:
        return VMeth(VSuper(c.cls, b), name)
    ref = ip.new(t)
    cc = ip.rd(b)
    if isinstance(cc, InstC):
        a = dict(cc.attrs)
        a[name] = ref
        ip._write(b, InstC(cc.cls, a))
    return ref


EXT_METHODS = {"copy", "deepcopy", "__call__", "rename", "render", "strip_units", "with_units_from_data"}


def ext_init(ip, obj, cls, args, kwargs):
    """initialiser of an external base class"""
    items = [(str(i), ip.t(a)) for i, a in enumerate(args)] + [(k, ip.t(v)) for k, v in sorted(kwargs.items())]
    c = ip.content(obj)
    t = mk("call", "super:__init__", (("cls", mk("cls", cls.qual)),) + tuple(items))
    ip.event("super-init", (cls.qual, tuple(items)))
    if isinstance(c, InstC):
        a = dict(c.attrs)
        a["$init"] = t
        # state the base class sets up
        for n in ("fixed", "bounds", "tied"):
            if n in kwargs:
                base = mk("call", "model:" + n, (("init", ip.t(kwargs[n])),))
            else:
                base = mk("call", "model:" + n, (("self", mk("self", c.cls.qual)),))
            a[n] = ip.new(base)
        ip._write(obj, InstC(c.cls, a))
    return NONE


# ------------------------------------------------------------------ misc protocol
def enter(ip, v):
    return v


def known_length(ip, t):
    if t.op in ("tuple", "vec", "list"):
        return len(t.args[0])
    if t.op == "call" and t.args[0] in FIXLEN:
        return FIXLEN[t.args[0]]
    if t.op == "sym":
        n = dict(t.args[2]).get("len")
        if isinstance(n, int):
            return n
    if t.op == "where":
        return A.ndim(t.args[0])
    if t.op == "shape":
        return A.ndim(t.args[0])
    if t.op == "ite":
        a, b = known_length(ip, t.args[1]), known_length(ip, t.args[2])
        return a if a == b else None
    return None


def unpack_elem(ip, t, k):
    if t.op == "shape":
        return mk("dim", t.args[0], num(k))
    if t.op == "ite" and kind(t.args[0]) != "arr":
        return ite(t.args[0], ip.t(unpack_elem(ip, t.args[1], k)), ip.t(unpack_elem(ip, t.args[2], k)))
    return getitem(t, num(k))


def cast(ip, t, dtype):
    d = ip.t(dtype)
    n = d.args[0] if d.op in ("ext", "const") else None
    if n in ("builtins.float", "numpy.float64", "float", "numpy.float32", "f8", "d", "float64", "numpy.double") or d is NONE:
        return t
    if n in ("builtins.int", "numpy.int64", "int", "numpy.int32", "numpy.intp", "numpy.int_"):
        r = lift(trunc_, t)
        return r if r is not None else mk("trunc", t)
    if n in ("builtins.bool", "numpy.bool_", "bool"):
        if t.op == "full":
            return full(t.args[0], tobool(t.args[1]))
        return tobool(t)
    if n in ("builtins.object",):
        return t
    return mk("xcall", "astype", (("x", t), ("dtype", d)))


def tobool(t):
    if t.op == "full":
        return full(t.args[0], tobool(t.args[1]))
    if T._isbool(t) or t.op in ("and", "or", "not") or A.isboolarr(t):
        return t
    if t.op == "ite":
        a, b = tobool(t.args[1]), tobool(t.args[2])
        return ite(t.args[0], a, b)
    if t.op in ("num", "const"):
        return boolc(bool(t.args[0]))
    if t is NAN:
        return TRUE
    return not_(T.eq(t, ZERO))


def elementwise(ip, f, *ts):
    r = lift(f, *ts)
    return r if r is not None else mk("xcall", "elementwise", tuple((str(i), t) for i, t in enumerate(ts)))


def as_num(t):
    if t.op == "const" and isinstance(t.args[0], bool):
        return num(int(t.args[0]))
    return t


def binop(ip, op, a, b):
    if op in ("Add", "Sub", "Mult", "Div", "Pow", "FloorDiv", "Mod"):
        if a.op == "tuple" and op == "Add" and b.op == "tuple":
            return mk("tuple", a.args[0] + b.args[0])
        if op in ("Add", "Mod") and (kind(a) == "str" or kind(b) == "str" or a.op == "str" or b.op == "str"):
            if op == "Add":
                return mkstr((a, b))
            r = percent(a.args[0], b.args[0] if b.op == "tuple" else (b,)) if a.op == "const" else None
            return r if r is not None else mk("str", (a, b))
        if a.op == "list" or b.op == "list":
            pass
        a, b = as_num(a), as_num(b)
        a = mk("vec", a.args[0]) if a.op == "tuple" else a
        b = mk("vec", b.args[0]) if b.op == "tuple" else b
        f = {"Add": add, "Sub": sub, "Mult": mul, "Div": div, "Pow": pow_, "FloorDiv": floordiv_, "Mod": mod_}[op]
        if op in ("Div", "FloorDiv", "Mod") and b is ZERO and kind(a) != "arr":
            return mk("divzero", a)
        if _nonarith(a) or _nonarith(b):
            return mk("op", op, a, b)
        r = lift(f, a, b)
        return r if r is not None else mk("op", op, a, b)
    if op in ("BitOr", "BitAnd"):
        if kind(a) == "int" and kind(b) == "int":
            return mk("op", op, a, b)
        f = or_ if op == "BitOr" else and_
        r = lift(f, a, b)
        return r if r is not None else mk("op", op, a, b)
    if op == "BitXor":
        r = lift(lambda x, y: or_(and_(x, not_(y)), and_(not_(x), y)), a, b)
        return r if r is not None else mk("op", op, a, b)
    return mk("op", op, a, b)


def _nonarith(t):
    return t.op in ("const", "dict", "set", "str", "inst", "table") or (t.op == "const")


def compare(ip, op, a, b):
    ta, tb = ip.t(a), ip.t(b)
    if op in ("Eq", "NotEq"):
        r = compare_eq(ip, ta, tb)
        return r if op == "Eq" else _notr(r)
    ta, tb = as_num(ta), as_num(tb)
    if _nonarith(ta) or _nonarith(tb):
        return mk("op", op, ta, tb)
    f = {"Lt": T.lt0, "LtE": T.le0}
    ta = mk("vec", ta.args[0]) if ta.op == "tuple" else ta
    tb = mk("vec", tb.args[0]) if tb.op == "tuple" else tb

    def go(x, y):
        if x is INF or y is INF:
            if x is y:
                return TRUE if op in ("LtE", "GtE") else FALSE
            if op in ("Lt", "LtE") and y is INF or op in ("Gt", "GtE") and x is INF:
                return TRUE if kind(x if y is INF else y) in ("int",) else mk("isfinite", x if y is INF else y) if op in ("Lt", "Gt") else TRUE
            return FALSE
        if x.op == "ite" and kind(x.args[0]) != "arr" and T.kind(x) != "arr" and _small(x):
            return ite(x.args[0], go(x.args[1], y), go(x.args[2], y))
        if y.op == "ite" and kind(y.args[0]) != "arr" and T.kind(y) != "arr" and _small(y):
            return ite(y.args[0], go(x, y.args[1]), go(x, y.args[2]))
        if op == "Lt":
            return T.lt0(sub(x, y))
        if op == "LtE":
            return T.le0(sub(x, y))
        if op == "Gt":
            return T.lt0(sub(y, x))
        return T.le0(sub(y, x))
    r = lift(go, ta, tb)
    return r if r is not None else mk("op", op, ta, tb)


def _small(t):
    n, st = 0, [t]
    while st:
        x = st.pop()
        n += 1
        if n > 12:
            return False
        if x.op == "ite":
            st.extend(x.args)
    return True


def _notr(r):
    if r.op == "vec":
        return mk("vec", tuple(not_(x) for x in r.args[0]))
    return not_(r)


def compare_eq(ip, a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == "type" and y.op == "ext":
            return isinst_term(ip, x.args[0], y.args[0])
        if x.op == "ite" and kind(x.args[0]) != "arr" and _small(x):
            return ite(x.args[0], compare_eq(ip, x.args[1], y), compare_eq(ip, x.args[2], y))
    if a.op == "ext" and b.op == "ext":
        return boolc(a.args[0] == b.args[0])
    if (a.op == "vec" or b.op == "vec") and not (a.op == "vec" and b.op in ("vec", "tuple")) and not (b.op == "vec" and a.op == "tuple") \
            and a.op != "const" and b.op != "const":
        r = lift(T.eq, a, b)
        if r is not None:
            return r
    if a.op in ("tuple", "vec") and b.op in ("tuple", "vec"):
        if len(a.args[0]) != len(b.args[0]):
            return FALSE
        return and_(*[compare_eq(ip, x, y) for x, y in zip(a.args[0], b.args[0])])
    for x, y in ((a, b), (b, a)):
        if x.op == "const" and isinstance(x.args[0], str) and y.op in ("num", "sum", "tuple", "vec", "dict", "full", "map"):
            return FALSE
        if x.op in ("dict", "inst", "cls", "func") and y.op in ("num", "const"):
            return FALSE
    return T.eq(a, b)


def contains_term(ip, seq, x):
    if seq.op == "ite":
        return ite(seq.args[0], contains_term(ip, seq.args[1], x), contains_term(ip, seq.args[2], x))
    if seq.op == "dict":
        return or_(*[T.eq(k, x) for k, _ in seq.args[0]])
    return mk("contains", seq, x)


def getitem_v(ip, b, ti):
    return ip.ext.getitem(ip, b, ti)


def _basic_index(i):
    """does the index make a view (basic slicing) rather than a copy?"""
    if i.op == "slice" or (i.op == "const" and i.args[0] is Ellipsis):
        return True
    if i.op == "tuple":
        return any(x.op == "slice" for x in i.args[0]) and all(x.op == "slice" or kind(x) in ("int", "scalar") or x.op == "const" for x in i.args[0])
    return False


def getitem_x(ip, b, ti):
    t = ip.t(b)
    if t.op == "undef":
        return t
    if t.op == "ite" and kind(t.args[0]) != "arr" and not isinstance(b, VRef):
        return ite(t.args[0], getitem(t.args[1], ti), getitem(t.args[2], ti))
    if t.op == "ext" and t.args[0] == "numpy.mgrid" and ti.op == "tuple" and len(ti.args[0]) == 2 and all(x.op == "slice" and x.args[2] is NONE for x in ti.args[0]):
        (y0, y1), (x0, x1) = [[ZERO if a is NONE else a for a in x.args[:2]] for x in ti.args[0]]
        x, y = add(x0, A.iota(sub(x1, x0))), add(y0, A.iota(sub(y1, y0)))
        return ip.new(ListC([ip.new(mesh("meshy", x, y)), ip.new(mesh("meshx", x, y))]))
    if t.op == "shape" and ti.op == "num":
        n = A.ndim(t.args[0])
        k = int(numval(ti))
        if k < 0 and n is not None:
            k += n
        return mk("dim", t.args[0], num(k)) if k >= 0 else mk("getitem", t, ti)
    if t.op == "const" and isinstance(t.args[0], str) and ti.op == "num":
        try:
            return const(t.args[0][int(numval(ti))])
        except IndexError:
            pass
    if isinstance(b, VRef) and (_basic_index(ti)) and not ip.is_list(b):
        return VRef(None, b, ("idx", ti))
    if isinstance(b, VRef) and (kind(ti) in ("int", "str") or ti.op in ("const", "num")) and kind(t) != "arr" and \
            not (T.kind(t) is not None) and not ip.is_list(b):
        # element of an unknown container: keep the link to the container
        r = getitem(t, ti)
        if kind(r) in ("scalar", "int", "bool", "str") or r.op in ("tuple",):
            return r
        return VRef(None, b, ("idx", ti))
    if A.ndim(t) == 2 and kind(ti) in ("int",) and isinstance(b, VRef):
        return VRef(None, b, ("idx", ti))
    return A.getitem(t, ti)


def store(ip, t, i, v):
    if kind(t) is None and (i.op == "const" and isinstance(i.args[0], str)):
        if t.op == "setitem" and t.args[1] is i:
            t = t.args[0]
        return mk("setitem", t, i, v)
    if t.op == "full" and v.op == "num" and False:
        pass
    return a_store(t, i, v)


def on_store(ip, ref, t, i, v):
    ip.event("array-store", (t, i, v))


def dict_del(t, k):
    return mk("dictdel", t, k)


# ------------------------------------------------------------------ isinstance
FAM = {"int": {"builtins.int", "numbers.Number", "numbers.Integral", "numbers.Real"},
       "scalar": {"builtins.float", "numbers.Number", "numbers.Real"},
       "str": {"builtins.str"}, "bool": {"builtins.bool", "builtins.int"}, "arr": {"numpy.ndarray"}, "none": set()}


def k_plain(x):
    """a plain array value (parameters of array kind stand for plain arrays)"""
    return kind(x) == "arr" and x.op in ("sym", "sum", "getitem", "ite", "iota", "linspace", "full")


def isinst_term(ip, x, cname):
    """x: term"""
    if x.op == "ite":
        return ite(x.args[0], isinst_term(ip, x.args[1], cname), isinst_term(ip, x.args[2], cname))
    if x.op == "phi" and kind(x) is None:
        return mk("isinst", x, cname.replace("builtins.", ""))
    if x.op == "tuple":
        return boolc(cname == "builtins.tuple")
    if x.op == "masked" or x.op == "call" and x.args[0] in ("numpy.ma.masked_invalid", "astropy.stats.sigma_clip"):
        return boolc(cname in ("numpy.ma.MaskedArray", "numpy.ndarray", "builtins.object"))
    if cname == "numpy.ma.MaskedArray" and k_plain(x):
        return FALSE
    if x.op == "vec":
        return boolc(cname in ("builtins.list", "numpy.ndarray"))
    if x.op == "dict":
        return boolc(cname == "builtins.dict")
    if x.op == "call" and x.args[0] == "astropy.table.Table.read" and cname in ("builtins.str", "builtins.list", "builtins.dict"):
        return FALSE
    if x.op == "call" and not (cname.startswith("builtins.") or cname.startswith("numpy.")):
        if x.args[0] == cname or x.args[0] == cname + ".read":
            return TRUE
    if x.op in ("nan", "inf", "pi", "E"):
        return boolc(cname == "builtins.float")
    if x.op == "inst":
        return boolc(cname == "builtins.object")
    k = kind(x)
    if x.op == "sym" and x.args[1].startswith("obj"):
        own = x.args[1][4:]
        if own == cname or own.split(".")[-1] == cname.split(".")[-1]:
            return TRUE
        return FALSE
    if x.op == "sym" and x.args[1] == "npint":
        return boolc(cname in ("numpy.integer", "numpy.int64", "numpy.number", "numbers.Number", "numbers.Integral", "numpy.generic"))
    if x.op == "sum" and len(as_poly(x)) >= 1 and k == "scalar" and cname == "builtins.int":
        pass
    if k in FAM:
        if k == "scalar" and x.op not in ("num", "sym") and cname.startswith("numpy."):
            if cname == "numpy.ndarray" and all(u.op in ("sum", "num", "sym", "E", "pi", "ln", "cos", "sin") for u in subterms(x)):
                return FALSE
            return mk("isinst", x, cname)
        return boolc(cname in FAM[k])
    return mk("isinst", x, cname.replace("builtins.", ""))


def class_names(ip, c):
    c = ip.resolve(c)
    if isinstance(c, VTuple):
        return [n for x in c.items for n in class_names(ip, x)]
    if isinstance(c, VRef) and isinstance(ip.content(c), ListC):
        return [n for x in ip.content(c).items for n in class_names(ip, x)]
    return [c]


def do_isinstance(ip, x, c):
    x = ip.resolve(x)
    if isinstance(x, VGamma):
        return ite(x.cond, do_isinstance(ip, x.a, c), do_isinstance(ip, x.b, c))
    gs = []
    for k in class_names(ip, c):
        gs.append(isinst1(ip, x, k))
    return or_(*gs)


def isinst1(ip, x, k):
    if isinstance(k, VClass):
        cc = ip.content(x) if isinstance(x, VRef) else None
        if isinstance(cc, GammaC):
            f = lambda c: ite(c.cond, f(c.a), f(c.b)) if isinstance(c, GammaC) else boolc(isinstance(c, InstC) and k in c.cls.mro())
            return f(cc)
        if isinstance(cc, InstC):
            return boolc(k in cc.cls.mro())
        if isinstance(x, Term) or isinstance(cc, Term):
            t = ip.t(x)
            if t.op == "sym" and t.args[1].startswith("obj"):
                return boolc(t.args[1].split(".")[-1] == k.name)
            if t.op == "sym" and t.args[1] == "any":
                return mk("isinst", t, k.qual)
        return FALSE
    if isinstance(k, VExt):
        n = k.name
        if isinstance(x, VTuple):
            return boolc(n == "builtins.tuple")
        cc = ip.content(x) if isinstance(x, VRef) else None
        if isinstance(cc, ListC):
            return boolc(n == "builtins.list")
        if isinstance(cc, DictC):
            return boolc(n in ("builtins.dict",))
        if isinstance(cc, SetC):
            return boolc(n == "builtins.set")
        if isinstance(cc, InstC):
            for e in cc.cls.extbases:
                if isinstance(e, VExt) and e.name == n:
                    return TRUE
            return FALSE if n.startswith("builtins.") or n.startswith("numpy.") else mk("isinst", ip.t(x), n)
        if isinstance(x, (VFunc, VBound, VClass, VMod)):
            return FALSE
        t = ip.t(x)
        if isinstance(x, VRef) and n in ("builtins.list", "numpy.ndarray") and kind(t) == "arr":
            return boolc((n == "builtins.list") == bool(ip.is_list(x)))
        return isinst_term(ip, t, n)
    return mk("isinst", ip.t(x), "?")


getitem_impl = getitem_x


# ================================================================== registry: builtins
@reg("builtins.len", "x")
def _len(ip, x):
    x = ip.resolve(x)
    if isinstance(x, VGamma):
        return ite(x.cond, ip.t(_len(ip, x.a)), ip.t(_len(ip, x.b)))
    it = None
    if isinstance(x, VTuple):
        return num(len(x.items))
    c = ip.content(x)
    if isinstance(c, SetC):
        ip.apart(c)
    if isinstance(c, (ListC, DictC, SetC)):
        return num(len(c.items))
    if isinstance(c, InstC):
        if ip.classattr(c.cls, "__len__") is not None:
            return ip.callv(ip.getattr(x, "__len__"), [], {})
    t = ip.t(x)
    k = known_length(ip, t)
    if k is not None:
        return num(k)
    if t.op == "shape":
        n = A.ndim(t.args[0])
        return num(n) if n is not None else mk("ndim", t.args[0])
    return length(t) or mk("len", t)


def _reduce(ip, op, x, others=None):
    t = ip.t(x)
    if t.op == "tuple":
        t = mk("vec", t.args[0])
    return A.reduce_(op, t)


@reg("builtins.abs numpy.abs", "x")
def _abs(ip, x):
    return elementwise(ip, abs_, as_num(ip.t(x)))


@reg("builtins.float", "x=0")
def _float(ip, x):
    t = ip.t(x)
    if t.op == "const" and isinstance(t.args[0], str):
        s = t.args[0].strip().lower()
        if s in ("nan",):
            return NAN
        if s in ("inf", "infinity"):
            return INF
        try:
            return num(float(s))
        except ValueError:
            ip.do_raise(ip.exc("ValueError"))
    t = as_num(t)
    if kind(t) is None and t.op not in ("sum",):
        # a number from now on
        r = t
        return r
    return t


@reg("builtins.int", "x=0 base=10")
def _int(ip, x, base):
    t = as_num(ip.t(x))
    if kind(t) == "str" or t.op in ("strm",):
        return mk("intof", t)
    if T._isbool(t):
        return ite(t, ONE, ZERO)
    return trunc_(t)


@reg("builtins.bool", "x=False")
def _bool(ip, x):
    return ip.truth(x)


@reg("builtins.str", "x=''")
def _str(ip, x):
    return mkstr([mkfmt(ip.t(x))])


@reg("builtins.repr", "x")
def _repr(ip, x):
    return mk("str", (mkfmt(ip.t(x), "", "r"),))


@reg("builtins.print", "**")
def _print0(ip, kwextra=None):
    ip.event("print", ())
    return NONE


def _print(ip, args, kwargs):
    ip.event("print", tuple(ip.t(a) for a in args))
    return NONE


@reg("builtins.list", "x=()")
def _list(ip, x):
    x = ip.resolve(x)
    it = ip.iterlist(x) if x is not None else []
    if isinstance(x, Term) and x.op == "const" and x.args[0] == ():
        return ip.new(ListC(()))
    if it is not None and len(it) <= 400:
        return ip.new(ListC([ip.bind(v) for v in it]))
    r = ip.new(materialise(ip, ip.t(x)))
    ip.mark_list(r)
    return r


def materialise(ip, t):
    """the array of the elements of an iterable"""
    if t.op in ("zip", "enumerate", "product", "reversed"):
        d = ip.multi(t)
        if d is not None:
            bs, el = d
            return A.mk_map(bs, ip.t(el))
    if t.op == "range":
        return add(t.args[0], mul(t.args[2], A.iota(t.args[3])))
    return t


@reg("builtins.tuple", "x=()")
def _tuple(ip, x):
    x = ip.resolve(x)
    if isinstance(x, Term) and x.op == "const" and x.args[0] == ():
        return VTuple(())
    it = ip.iterlist(x)
    if it is not None:
        return VTuple(it)
    return ip.t(x)


@reg("builtins.set builtins.frozenset", "x=()")
def _set(ip, x):
    x = ip.resolve(x)
    if isinstance(x, Term) and x.op == "const" and x.args[0] == ():
        return ip.new(SetC(()))
    it = ip.iterlist(x)
    if it is not None:
        out = []
        for v in it:
            if all(ip.t(v) is not ip.t(o) for o in out):
                out.append(v)
        return ip.new(SetC(out))
    return mk("xcall", "set", (("0", ip.t(x)),))


@reg("builtins.dict collections.OrderedDict", "x=() **")
def _dict(ip, x, kwextra=None):
    d = ip.new(DictC(()))
    x = ip.resolve(x)
    if not (isinstance(x, Term) and x.op == "const" and x.args[0] == ()):
        dict_method(ip, d, ip.content(d), "update", [x], {})
    if kwextra:
        c = ip.content(d)
        if "**" in kwextra:
            return dictupd_(ip.t(d), ip.t(kwextra["**"]))
        if isinstance(c, DictC):
            for k, v in kwextra.items():
                c = c.set(const(k), ip.bind(v))
            ip.st.heap[d.loc] = c
        else:
            ip.st.heap[d.loc] = dictupd_(ip.cterm(c), mk("dict", tuple((const(k), ip.t(v)) for k, v in kwextra.items())))
    return d


@reg("builtins.range", "a b=None c=1")
def _range(ip, a, b, c):
    a, b, c = ip.t(a), ip.t(b), ip.t(c)
    if b is NONE:
        a, b = ZERO, a
    return range_(a, b, c)


def range_(a, b, c):
    if c.op == "num" and numval(c) == -1:
        return mk("range", a, b, c, T.mnmx("max", ZERO, sub(a, b)) if not T.nonneg(sub(a, b)) else sub(a, b))
    n = ceil_(div(sub(b, a), c))
    if is_num(n) and numval(n) < 0:
        n = ZERO
    if a is ZERO and c is ONE:
        return A.iota(n)
    return mk("range", a, b, c, n)


@reg("builtins.enumerate", "x start=0")
def _enum(ip, x, start):
    it = ip.iterlist(x)
    s = ip.t(start)
    if it is not None:
        return ip.new(ListC([VTuple([add(s, num(i)), v]) for i, v in enumerate(it)]))
    return mk("enumerate", ip.t(x), s)


def _zip(ip, args, kwargs):
    if len(args) == 1 and isinstance(args[0], Term) and args[0].op == "star":
        t = args[0].args[0]
        if t.op == "map" and t.args[1].op == "tuple":
            bs, body = t.args
            return VTuple([A.mk_map(bs, x) for x in body.args[0]])
        return mk("xcall", "zip", (("0", args[0]),))
    its = [ip.iterlist(a) for a in args]
    known = [len(i) for i in its if i is not None]
    if len(known) == len(its):
        n = min(known) if known else 0
        return ip.new(ListC([VTuple([i[k] for i in its]) for k in range(n)]))
    if known:
        n = min(known)
        cols = [i if i is not None else [A.getitem(ip.t(a), num(k)) for k in range(n)] for i, a in zip(its, args)]
        return ip.new(ListC([VTuple([i[k] for i in cols]) for k in range(n)]))
    return mk("zip", tuple(ip.t(a) for a in args))


def _minmax(which):
    def f(ip, args, kwargs):
        args = [ip.resolve(a) for a in args]
        if len(args) == 1:
            x = args[0]
            it = ip.iterlist(x)
            if it is not None and it:
                return T.mnmx(which, *[as_num(ip.t(v)) for v in it])
            t = ip.t(x)
            if t.op == "shape":
                return A.reduce_("a" + which, t)
            if t.op == "ite" and kind(t.args[0]) != "arr":
                return ite(t.args[0], ip.t(f(ip, [t.args[1]], {})), ip.t(f(ip, [t.args[2]], {})))
            d = kwargs.get("default")
            return A.reduce_("a" + which, materialise(ip, t))
        return T.mnmx(which, *[as_num(ip.t(a)) for a in args])
    return f


def _sum(ip, args, kwargs):
    x = args[0]
    start = ip.t(args[1]) if len(args) > 1 else ip.t(kwargs.get("start", ZERO))
    it = ip.iterlist(x)
    if it is not None:
        r = start
        for v in it:
            r = ip.binop("Add", r, v)
        return r
    t = materialise(ip, ip.t(x))
    if T._isbool(t) or t.op in ("and", "or", "not"):
        return add(start, mk("count", t))
    return add(start, A.reduce_("asum", t))


@reg("builtins.sorted", "x key=None reverse=False")
def _sorted(ip, x, key, reverse):
    kt = ip.t(key)
    if kt.op in ("lambda", "func"):
        # describe the key by its value on a generic element
        e = mk("sym", "$elem", "str" if False else "any", ())
        ip.quiet += 1
        try:
            kt = mk("keyfn", ip.t(ip.callv(key, [e], {})))
        except (DeadPath, Unsupported):
            pass
        finally:
            ip.quiet -= 1
    return ip.new(mk("call", "sorted", (("x", ip.t(x)), ("key", kt), ("reverse", ip.t(reverse)))))


CANON_CALLS.add("sorted")


@reg("builtins.reversed", "x")
def _reversed(ip, x):
    it = ip.iterlist(x)
    if it is not None:
        return ip.new(ListC(list(reversed(it))))
    t = ip.t(x)
    return mk("getitem", t, mk("slice", NONE, NONE, num(-1)))


@reg("builtins.isinstance", "x c")
def _isinstance(ip, x, c):
    return do_isinstance(ip, x, c)


@reg("builtins.issubclass", "x c")
def _issubclass(ip, x, c):
    tx, tc = ip.t(x), ip.t(c)
    if tc.op == "tuple":
        return or_(*[ip.t(_issubclass(ip, x, k)) for k in tc.args[0]])
    if tx is tc:
        return TRUE
    if tx.op == "ext" and tc.op == "ext" and {tx.args[0].rpartition(".")[2], tc.args[0].rpartition(".")[2]} <= UNRELATED:
        return FALSE
    return tobool(mk("xcall", "issubclass", (("x", tx), ("c", tc))))


UNRELATED = {"LevMarLSQFitter", "TRFLSQFitter", "LMLSQFitter", "LinearLSQFitter", "DogBoxLSQFitter", "SLSQPLSQFitter", "SimplexLSQFitter"}


@reg("builtins.type", "x")
def _type(ip, x):
    x = ip.resolve(x)
    if isinstance(x, VGamma):
        return ip.case(x, lambda v: _type(ip, v))
    if isinstance(x, VTuple):
        return VExt("builtins.tuple")
    c = ip.content(x)
    if isinstance(c, ListC):
        return VExt("builtins.list")
    if isinstance(c, DictC):
        return VExt("builtins.dict")
    if isinstance(c, InstC):
        return c.cls
    t = ip.t(x)
    if t.op == "sym" and t.args[1] == "npint":
        return VExt("numpy.int64")
    if t.op == "ite" and kind(t.args[0]) != "arr":
        return ip.branch(t.args[0], lambda: _type(ip, t.args[1]), lambda: _type(ip, t.args[2]))
    k = kind(t)
    if t.op == "const" and isinstance(t.args[0], bool):
        return VExt("builtins.bool")
    if k == "str":
        return VExt("builtins.str")
    if k == "arr":
        return VExt("builtins.list" if ip.is_list(x) else "numpy.ndarray")
    if t.op in ("num", "sym") and k == "int":
        return VExt("builtins.int")
    if k == "int" and t.op not in ("getitem", "E"):
        return VExt("builtins.int")
    if k in ("scalar", "int") and all(u.op in ("sum", "num", "sym", "E", "pi", "floordiv") for u in subterms(t)):
        return VExt("builtins.int" if k == "int" and t.op != "E" else "builtins.float")
    if t is NONE:
        return VExt("builtins.NoneType")
    if t.op == "sym" and t.args[1].startswith("obj:"):
        return VExt(t.args[1][4:])
    return mk("type", t)


@reg("builtins.hasattr", "x name")
def _hasattr(ip, x, name):
    n = ip.t(name)
    x = ip.resolve(x)
    if n.op == "const" and isinstance(x, VRef):
        c = ip.content(x)
        if isinstance(c, InstC):
            if n.args[0] in c.attrs or ip.classattr(c.cls, n.args[0]) is not None:
                return TRUE
            if not c.cls.extbases:
                return FALSE
    t = ip.t(x)
    d = ip.objattrs.get(t)
    if d is not None and n.op == "const" and ("!" + n.args[0]) in d:
        return FALSE
    if d is not None and n.op == "const" and n.args[0] in d:
        return TRUE
    if n.op == "const" and kind(t) in ("scalar", "int", "str", "bool") and n.args[0] in ("unit", "data", "value", "shape", "mask"):
        return FALSE
    if n.op == "const" and n.args[0] == "unit" and kind(t) == "arr":
        return FALSE
    return mk("hasattr", t, n)


@reg("builtins.getattr", "x name default='__none__'")
def _getattr(ip, x, name, default):
    n = ip.t(name)
    if n.op == "const":
        d = ip.t(default)
        if not (d.op == "const" and d.args[0] == "__none__"):
            h = ip.t(_hasattr(ip, x, n))
            return ip.branch(h, lambda: ip.getattr(x, n.args[0]), lambda: default)
        return ip.getattr(x, n.args[0])
    if n.op == "ite":
        return ip.branch(n.args[0], lambda: _getattr(ip, x, n.args[1], default), lambda: _getattr(ip, x, n.args[2], default))
    return mk("xcall", "getattr", (("0", ip.t(x)), ("1", n)))


@reg("builtins.setattr", "x name v")
def _setattr(ip, x, name, v):
    n = ip.t(name)
    if n.op == "const":
        ip.setattr(x, n.args[0], ip.bind(v))
        return NONE
    raise Unsupported("setattr with computed name")


@reg("builtins.delattr", "x name")
def _delattr(ip, x, name):
    ip.delattr(x, ip.t(name).args[0])
    return NONE


@reg("builtins.callable", "x")
def _callable(ip, x):
    if isinstance(x, (VFunc, VBound, VClass, VPartial, VDeco)):
        return TRUE
    return mk("callable", ip.t(x))


@reg("builtins.round", "x ndigits=None")
def _round(ip, x, ndigits):
    return elementwise(ip, lambda a: round_(a, ip.t(ndigits)), ip.t(x))


@reg("builtins.any builtins.all", "x")
def _anyall(ip, x):
    raise Unsupported("any")


def _bany(which):
    def f(ip, args, kwargs):
        it = ip.iterlist(args[0])
        if it is not None:
            gs = [ip.truth(v) for v in it]
            return or_(*gs) if which == "any" else and_(*gs)
        t = materialise(ip, ip.t(args[0]))
        return A.reduce_(which, tobool_arr(t))
    return f


def tobool_arr(t):
    return t


@reg("builtins.pow numpy.power numpy.float_power", "x y")
def _pow(ip, x, y):
    return ip.binop("Pow", x, y)


@reg("builtins.divmod", "a b")
def _divmod(ip, a, b):
    return VTuple([ip.binop("FloorDiv", a, b), ip.binop("Mod", a, b)])


@reg("builtins.iter", "x")
def _iter(ip, x):
    return x


def _next(ip, args, kwargs):
    x = args[0]
    it = ip.iterlist(x)
    if it:
        return it[0]
    t = ip.t(x)
    if t.op == "getitem" and t.args[0].op not in ("",) and A.isboolarr(t.args[1]):
        m = t.args[1]
        v = A.getitem(t.args[0], mk("firstidx", m))
        anym = A.reduce_("any", m)
    elif t.op == "where0":
        v = mk("firstidx", t.args[0])
        anym = A.reduce_("any", t.args[0])
    else:
        return mk("xcall", "next", tuple((str(i), ip.t(a)) for i, a in enumerate(args)))
    if len(args) > 1:
        return ip.branch(anym, lambda: v, lambda: args[1])
    ip.raise_if(not_(anym), ip.exc("StopIteration"))
    return v


def map_call(ip, f, its):
    """[f(x) for x in it]"""
    import ast
    fr0 = ip.frames[-1]
    ip.nfid += 1
    fid = ip.nfid
    ip.st.env[fid] = {"$f": f}
    ip.parent[fid] = fr0.fid
    from .interp import Frame
    fr = Frame(fid, fr0.func, fr0.node)
    fr.mod, fr.cls, fr.selfv, fr.defcls = fr0.mod, None, fr0.selfv, None
    ip.frames.append(fr)
    try:
        acc = ip.new(ListC(()))
        ip.mark_list(acc)
        ip.st.env[fid]["$acc"] = acc
        names = []
        for i, x in enumerate(its):
            ip.st.env[fid]["$it%d" % i] = ip.bind(x)
        tgt = "$x0" if len(its) == 1 else "($" + ")"
        import ast as _a
        if len(its) == 1:
            target = _a.Name(id="$x0", ctx=_a.Store())
            it = _a.Name(id="$it0", ctx=_a.Load())
            cargs = [_a.Name(id="$x0", ctx=_a.Load())]
        else:
            target = _a.Tuple(elts=[_a.Name(id="$x%d" % i, ctx=_a.Store()) for i in range(len(its))], ctx=_a.Store())
            ip.st.env[fid]["$zip"] = VExt("builtins.zip")
            it = _a.Call(func=_a.Name(id="$zip", ctx=_a.Load()), args=[_a.Name(id="$it%d" % i, ctx=_a.Load()) for i in range(len(its))], keywords=[])
            cargs = [_a.Name(id="$x%d" % i, ctx=_a.Load()) for i in range(len(its))]
        body = _a.Expr(_a.Call(func=_a.Attribute(value=_a.Name(id="$acc", ctx=_a.Load()), attr="append", ctx=_a.Load()),
                               args=[_a.Call(func=_a.Name(id="$f", ctx=_a.Load()), args=cargs, keywords=[])], keywords=[]))
        loop = _a.For(target=target, iter=it, body=[body], orelse=[])
        loop.lineno, loop.col_offset = ip.site[1], 0
        loop.end_lineno, loop.end_col_offset = ip.site[1], 0
        _a.fix_missing_locations(loop)
        ip.run_block([loop])
        if ip.st is None:
            raise DeadPath()
        return ip.st.env[fid]["$acc"]
    finally:
        ip.frames.pop()
        if ip.st is not None:
            ip.st.env.pop(fid, None)


def _map(ip, args, kwargs):
    return map_call(ip, args[0], args[1:])


@reg("builtins.format", "x spec=''")
def _format(ip, x, spec):
    x, spec = ip.t(x), ip.t(spec)
    if spec.op == "const":
        return mkstr([mkfmt(x, spec.args[0])])
    return mk("str", (x, spec))


@reg("builtins.slice", "a b=None c=None")
def _slice(ip, a, b, c):
    a, b, c = ip.t(a), ip.t(b), ip.t(c)
    return slc(a, b, c)


@reg("builtins.object", "")
def _object(ip):
    return mk("xcall", "object", ())


RAW = {"builtins.zip": _zip, "builtins.min": _minmax("min"), "builtins.max": _minmax("max"), "builtins.sum": _sum,
       "builtins.print": _print, "builtins.any": _bany("any"), "builtins.all": _bany("all"), "builtins.next": _next,
       "builtins.map": _map}


# ================================================================== registry: copies, functools, itertools
@reg("copy.copy", "x")
def _copy(ip, x):
    x = ip.resolve(x)
    if isinstance(x, VGamma):
        return ip.case(x, lambda v: _copy(ip, v))
    if isinstance(x, VRef):
        c = ip.content(x)
        if isinstance(c, InstC) and ip.classattr(c.cls, "__copy__") is not None:
            return ip.callv(ip.getattr(x, "__copy__"), [], {})
        return ip.new(c)
    return x


@reg("copy.deepcopy", "x memo=None")
def _deepcopy(ip, x, memo):
    x = ip.resolve(x)
    if isinstance(x, VGamma):
        return ip.case(x, lambda v: _deepcopy(ip, v, NONE))
    if isinstance(x, VTuple):
        return VTuple([_deepcopy(ip, v, NONE) for v in x.items])
    if isinstance(x, VRef):
        c = ip.content(x)
        if isinstance(c, InstC):
            return ip.new(InstC(c.cls, {k: _deepcopy(ip, v, NONE) for k, v in c.attrs.items()}))
        if isinstance(c, ListC):
            return ip.new(ListC([_deepcopy(ip, v, NONE) for v in c.items]))
        if isinstance(c, DictC):
            return ip.new(DictC([(k, _deepcopy(ip, v, NONE)) for k, v in c.items]))
        return ip.new(ip.cterm(c))
    return x


def _partial(ip, args, kwargs):
    return VPartial(args[0], list(args[1:]), list(kwargs.items()))


def _freduce(ip, args, kwargs):
    f, x = args[0], args[1]
    it = ip.iterlist(x)
    if it is None:
        raise Unsupported("functools.reduce over an unknown sequence")
    it = list(it)
    if len(args) > 2:
        acc = args[2]
    else:
        acc = it.pop(0)
    for v in it:
        acc = ip.callv(f, [acc, v], {})
    return acc


def _product(ip, args, kwargs):
    its = [ip.iterlist(a) for a in args]
    if all(i is not None for i in its):
        import itertools
        return ip.new(ListC([VTuple(list(x)) for x in itertools.product(*its)]))
    return mk("product", tuple(ip.t(a) for a in args))


def _chain(ip, args, kwargs):
    its = [ip.iterlist(a) for a in args]
    if all(i is not None for i in its):
        return ip.new(ListC([v for i in its for v in i]))
    return concat(*[ip.t(a) for a in args])


RAW.update({"functools.partial": _partial, "functools.reduce": _freduce, "itertools.product": _product, "itertools.chain": _chain})


# ================================================================== registry: numpy
@reg("numpy.array", "object dtype=None copy=True order='K' subok=False ndmin=0")
def _nparray(ip, object, dtype, copy, order, subok, ndmin):
    t = materialise(ip, ip.t(object))
    if t.op == "tuple":
        t = mk("vec", t.args[0])
    d = ip.t(dtype)
    if kind(t) in ("scalar", "int") and t.op != "vec":
        return cast(ip, t, d)
    r = ip.new(cast(ip, nested(t), d))
    return r


def nested(t):
    return t


@reg("numpy.asarray", "a dtype=None order=None")
def _asarray(ip, a, dtype, order):
    t = materialise(ip, ip.t(a))
    if isinstance(a, VRef) and isinstance(ip.content(a), Term) and not ip.is_list(a):
        c = cast(ip, t, dtype)
        if c is t:
            return VRef(None, a, ("id",))
        return ip.new(c)
    return _nparray(ip, a, dtype, TRUE, NONE, FALSE, ZERO)


@reg("numpy.copy", "a")
def _npcopy(ip, a):
    return ip.new(ip.t(a))


def _shape_of(ip, s):
    t = ip.t(s)
    if t.op == "vec":
        t = mk("tuple", t.args[0])
    if t.op == "tuple" and len(t.args[0]) and all(x.op == "dim" and x.args[0] is t.args[0][0].args[0] and x.args[1] is num(k)
                                                  for k, x in enumerate(t.args[0])):
        a = t.args[0][0].args[0]
        if A.ndim(a) == len(t.args[0]):
            return mk("shape", a)
    if t.op == "len" and A.ndim(t.args[0]) == 1:
        return mk("shape", t.args[0])
    return t


@reg("numpy.zeros", "shape dtype=None")
def _zeros(ip, shape, dtype):
    return ip.new(full(_shape_of(ip, shape), cast(ip, ZERO, dtype)))


@reg("numpy.ones", "shape dtype=None")
def _ones(ip, shape, dtype):
    return ip.new(full(_shape_of(ip, shape), cast(ip, ONE, dtype)))


@reg("numpy.full", "shape fill_value dtype=None")
def _full(ip, shape, fill_value, dtype):
    return ip.new(full(_shape_of(ip, shape), cast(ip, ip.t(fill_value), dtype)))


@reg("numpy.empty", "shape dtype=None")
def _empty(ip, shape, dtype):
    return ip.new(full(_shape_of(ip, shape), mk("uninit")))


def shp(t):
    if t.op == "vec":
        return mk("tuple", (num(len(t.args[0])),))
    s = shape_(t)
    if A.ndim(t) == 1 and s.op == "tuple" and s.args[0][0].op == "len":
        return mk("shape", s.args[0][0].args[0])
    return s


def _fulllike(ip, a, v, dtype):
    t = ip.t(a)
    if kind(t) in ("scalar", "int"):
        return v
    if t.op == "vec":
        return ip.new(mk("vec", tuple([cast(ip, v, dtype)] * len(t.args[0]))))
    r = ip.new(full(shp(t), cast(ip, v, dtype)))
    if ip.t(dtype) is NONE:
        ip.dtypes[r.loc] = t
    return r


@reg("numpy.zeros_like", "a dtype=None")
def _zl(ip, a, dtype):
    return _fulllike(ip, a, ZERO, dtype)


@reg("numpy.ones_like", "a dtype=None")
def _ol(ip, a, dtype):
    return _fulllike(ip, a, ONE, dtype)


@reg("numpy.full_like", "a fill_value dtype=None")
def _fl(ip, a, fill_value, dtype):
    return _fulllike(ip, a, ip.t(fill_value), dtype)


@reg("numpy.empty_like", "a dtype=None")
def _el(ip, a, dtype):
    return _fulllike(ip, a, mk("uninit"), dtype)


@reg("numpy.arange", "start stop=None step=1 dtype=None")
def _arange(ip, start, stop, step, dtype):
    a, b, c = ip.t(start), ip.t(stop), ip.t(step)
    if b is NONE:
        a, b = ZERO, a
    if c is NONE:
        c = ONE
    n = ceil_(div(sub(b, a), c))
    return ip.new(add(a, mul(c, A.iota(n)))) if not (is_num(n) and numval(n) <= 40) else \
        ip.new(mk("vec", tuple(add(a, mul(c, num(k))) for k in range(max(0, int(numval(n)))))))


@reg("numpy.linspace", "start stop num=50 endpoint=True retstep=False dtype=None axis=0")
def _linspace(ip, start, stop, num, endpoint, retstep, dtype, axis):
    a, b, n = ip.t(start), ip.t(stop), ip.t(num)
    e = ip.t(endpoint)
    if e is TRUE and ip.t(retstep) is FALSE:
        return ip.new(mk("linspace", a, b, n))
    if e is FALSE and ip.t(retstep) is FALSE:
        return ip.new(add(a, mul(div(sub(b, a), n), A.iota(n))))
    return mk("xcall", "numpy.linspace", (("start", a), ("stop", b), ("num", n), ("endpoint", e), ("retstep", ip.t(retstep))))


@reg("numpy.logspace", "start stop num=50 endpoint=True base=10.0 dtype=None axis=0")
def _logspace(ip, start, stop, num, endpoint, base, dtype, axis):
    l = ip.t(_linspace(ip, start, stop, num, endpoint, FALSE, NONE, ZERO))
    return ip.new(pow_(ip.t(base), l))


@reg("numpy.geomspace", "start stop num=50 endpoint=True dtype=None axis=0")
def _geomspace(ip, start, stop, num, endpoint, dtype, axis):
    l = ip.t(_linspace(ip, log10(ip.t(start)), log10(ip.t(stop)), num, endpoint, FALSE, NONE, ZERO))
    return ip.new(pow_(T.num(10), l))


def _where(ip, args, kwargs):
    args = list(args)
    c = ip.t(args[0]) if args else ip.t(kwargs["condition"])
    if c.op == "vec":
        c2 = mk("vec", tuple(tobool(x) for x in c.args[0]))
    else:
        c2 = tobool(c)
    if len(args) == 3:
        a, b = ip.t(args[1]), ip.t(args[2])
        return elementwise(ip, lambda x, y, z: ite(x, y, z), c2, a, b)
    t = mk("where", c2)
    if A.ndim(c2) == 1:
        return VTuple([mk("where0", c2)])
    return t


RAW["numpy.where"] = _where
RAW["numpy.nonzero"] = lambda ip, args, kwargs: _where(ip, args[:1], kwargs)


@reg("numpy.argwhere", "a")
def _argwhere(ip, a):
    return ip.new(mk("argwhere", tobool(ip.t(a))))


@reg("numpy.indices", "dimensions dtype=None sparse=False")
def _indices(ip, dimensions, dtype, sparse):
    t = ip.t(dimensions)
    d = t.args[0] if t.op == "tuple" else [mk("dim", t.args[0], num(k)) for k in range(2)] if t.op == "shape" and A.ndim(t.args[0]) == 2 else None
    if d is None or len(d) != 2 or ip.t(sparse) is not FALSE:
        return mk("xcall", "numpy.indices", (("dimensions", t),))
    x, y = A.iota(d[1]), A.iota(d[0])
    return ip.new(ListC([ip.new(mesh("meshy", x, y)), ip.new(mesh("meshx", x, y))]))


@reg("numpy.flatnonzero", "a")
def _flatnonzero(ip, a):
    c = tobool(ip.t(a))
    return mk("where0", c)


@reg("numpy.diff", "a n=1 axis=-1")
def _diff(ip, a, n, axis):
    t = ip.t(a)
    if ip.t(n) is ONE:
        if t.op in ("vec", "tuple"):
            x = t.args[0]
            return ip.new(mk("vec", tuple(sub(x[i + 1], x[i]) for i in range(len(x) - 1))))
        return ip.new(A.diff(t))
    return mk("xcall", "numpy.diff", (("a", t), ("n", ip.t(n))))


@reg("numpy.ediff1d", "a to_end=None to_begin=None")
def _ediff(ip, a, to_end, to_begin):
    if ip.t(to_end) is NONE and ip.t(to_begin) is NONE:
        return ip.new(A.diff(ip.t(a)))
    return mk("xcall", "numpy.ediff1d", (("a", ip.t(a)), ("e", ip.t(to_end)), ("b", ip.t(to_begin))))


def _part(t):
    if t.op in ("vec", "tuple", "list", "concat") or kind(t) == "arr":
        return t
    if kind(t) in ("scalar", "int", "bool") or t.op in ("nan", "inf", "num"):
        return mk("vec", (t,))
    return t


@reg("numpy.insert", "arr obj values axis=None")
def _insert(ip, arr, obj, values, axis):
    a, i, v = ip.t(arr), ip.t(obj), ip.t(values)
    if i is ZERO:
        return ip.new(concat(_part(v), a))
    return ip.new(mk("xcall", "numpy.insert", (("arr", a), ("obj", i), ("values", v))))


@reg("numpy.append", "arr values axis=None")
def _append(ip, arr, values, axis):
    return ip.new(concat(_part(ip.t(arr)), _part(ip.t(values))))


@reg("numpy.concatenate numpy.hstack", "arrays axis=0 dtype=None")
def _concatenate(ip, arrays, axis, dtype):
    it = ip.iterlist(arrays)
    if it is None:
        return mk("xcall", "numpy.concatenate", (("0", ip.t(arrays)),))
    return ip.new(concat(*[_part(ip.t(x)) for x in it]))


@reg("numpy.delete", "arr obj axis=None")
def _delete(ip, arr, obj, axis):
    a, i = ip.t(arr), ip.t(obj)
    if i is ZERO:
        return ip.new(A.getitem(a, slc(ONE)))
    if i is num(-1):
        return ip.new(A.getitem(a, slc(NONE, num(-1))))
    return ip.new(mk("xcall", "numpy.delete", (("arr", a), ("obj", i))))


@reg("numpy.unique", "ar return_index=False return_inverse=False return_counts=False axis=None")
def _unique(ip, ar, return_index, return_inverse, return_counts, axis):
    t = ip.t(ar)
    n = length(t)
    known = None
    if n is ONE:
        known = [getitem(t, ZERO)], [ZERO], [ZERO], [ONE]
    elif t.op == "vec" and all(x.op == "num" for x in t.args[0]):
        vs = sorted({numval(x) for x in t.args[0]})
        at = [[i for i, x in enumerate(t.args[0]) if numval(x) == v] for v in vs]
        known = [num(v) for v in vs], [num(a[0]) for a in at], [num(vs.index(numval(x))) for x in t.args[0]], [num(len(a)) for a in at]
    if known and not any(isinstance(x, Term) and x not in (TRUE, FALSE) for x in (ip.t(return_index), ip.t(return_inverse), ip.t(return_counts))):
        out = [k for k, f in zip(known, (TRUE, ip.t(return_index), ip.t(return_inverse), ip.t(return_counts))) if f is TRUE]
        out = [ip.new(mk("vec", tuple(k))) for k in out]
        return out[0] if len(out) == 1 else VTuple(out)
    out = [mk("uniq", t)]
    fl = [ip.t(x) for x in (return_index, return_inverse, return_counts)]
    for f, o in zip(fl, ("uniqfirst", "uniqinv", "uniqcount")):
        if f is TRUE:
            out.append(mk(o, t))
        elif f is not FALSE:
            return mk("xcall", "numpy.unique", tuple(("%d" % i, x) for i, x in enumerate([t] + fl)))
    if len(out) == 1:
        return ip.new(out[0])
    return VTuple(out)


def _ew1(names, f):
    def h(ip, x, **kw):
        return elementwise(ip, f, as_num(ip.t(x)))
    for n in names.split():
        REG[n] = parse_sig("x") + (h,)


_ew1("numpy.sqrt", sqrt)
_ew1("numpy.square", lambda t: pow_(t, TWO))
_ew1("numpy.exp", exp)
_ew1("numpy.log", ln)
_ew1("numpy.log10", log10)
_ew1("numpy.log2", lambda t: div(ln(t), ln(TWO)))
_ew1("numpy.log1p", lambda t: ln(add(ONE, t)))
_ew1("numpy.expm1", lambda t: sub(exp(t), ONE))
_ew1("numpy.cos", cos)
_ew1("numpy.sin", sin)
_ew1("numpy.tan", lambda t: mk("tan", t))
_ew1("numpy.deg2rad", lambda t: div(mul(t, PI), num(180)))
_ew1("numpy.rad2deg", lambda t: div(mul(t, num(180)), PI))
_ew1("numpy.isnan", isnan)
_ew1("numpy.isfinite", lambda t: TRUE if t.op == "num" else FALSE if t in (NAN, INF) else mk("isfinite", t))
_ew1("numpy.isinf", lambda t: FALSE if t.op == "num" else mk("isinf", t))
_ew1("numpy.logical_not", lambda t: not_(tobool(t)))
_ew1("numpy.invert", lambda t: not_(tobool(t)) if kind(t) != "int" else sub(neg(t), ONE))
_ew1("numpy.negative", neg)
_ew1("numpy.positive", lambda t: t)
_ew1("numpy.reciprocal", lambda t: div(ONE, t))
_ew1("numpy.floor", floor_)
_ew1("numpy.ceil", ceil_)
_ew1("numpy.trunc numpy.fix", trunc_)
_ew1("numpy.rint", lambda t: round_(t, ZERO))
_ew1("numpy.sign", lambda t: mk("sign", t))
_ew1("scipy.special.gamma", gamma_)
_ew1("scipy.special.gammaln", lambda t: ln(gamma_(t)))
_ew1("numpy.float64 numpy.float32 numpy.double numpy.longdouble", lambda t: t)
_ew1("numpy.int64 numpy.int32 numpy.intp", trunc_)
_ew1("numpy.bool_", tobool)


def _ew2(names, f, sig="x y"):
    ps = parse_sig(sig)

    def h(ip, **kw):
        vals = [as_num(ip.t(kw[p])) for p, _ in ps[0]]
        return elementwise(ip, f, *vals)
    for n in names.split():
        REG[n] = ps + (h,)


_ew2("numpy.hypot", lambda a, b: sqrt(add(pow_(a, TWO), pow_(b, TWO))))
_ew2("numpy.add", add)
_ew2("numpy.subtract", sub)
_ew2("numpy.multiply", mul)
_ew2("numpy.divide", div)
_ew2("numpy.floor_divide", floordiv_)
_ew2("numpy.mod", mod_)
_ew2("numpy.minimum numpy.fmin", lambda a, b: T.mnmx("min", a, b))
_ew2("numpy.maximum numpy.fmax", lambda a, b: T.mnmx("max", a, b))
_ew2("numpy.logical_and", lambda a, b: and_(a, b))
_ew2("numpy.logical_or", lambda a, b: or_(a, b))
_ew2("numpy.arctan2", lambda a, b: mk("arctan2", a, b))
_ew2("scipy.special.gammainc", gammainc_, "a x")
_ew2("scipy.special.gammaincinv", gammaincinv_, "a y")
_ew2("numpy.greater", lambda a, b: T.lt0(sub(b, a)))
_ew2("numpy.greater_equal", lambda a, b: T.le0(sub(b, a)))
_ew2("numpy.less", lambda a, b: T.lt0(sub(a, b)))
_ew2("numpy.less_equal", lambda a, b: T.le0(sub(a, b)))
_ew2("numpy.equal", lambda a, b: T.eq(a, b))
_ew2("numpy.not_equal", lambda a, b: not_(T.eq(a, b)))


def _red(names, op):
    def h(ip, a, axis, **kw):
        t = materialise(ip, ip.t(a))
        if t.op == "tuple":
            t = mk("vec", t.args[0])
        ax = ip.t(axis)
        if ax is not NONE and not (A.ndim(t) == 1 or t.op == "vec"):
            return mk("xcall", names.split()[0], (("a", t), ("axis", ax)))
        if op in ("any", "all"):
            t = mk("vec", tuple(tobool(x) for x in t.args[0])) if t.op == "vec" else t
        return A.reduce_(op, t)
    for n in names.split():
        REG[n] = parse_sig("a axis=None dtype=None out=None keepdims=False initial=None where=True") + (h,)


_red("numpy.min", "amin")
_red("numpy.max", "amax")
_red("numpy.sum", "asum")
_red("numpy.any", "any")
_red("numpy.all", "all")
_red("numpy.nanmin", "nanmin")
_red("numpy.nanmax", "nanmax")
_red("numpy.nansum", "nansum")
_red("numpy.median", "median")
_red("numpy.nanmedian", "nanmedian")
_red("numpy.nanstd", "nanstd")
_red("numpy.nanmean", "nanmean")
_red("numpy.prod", "aprod")


@reg("numpy.mean numpy.average", "a axis=None")
def _mean(ip, a, axis):
    t = ip.t(a)
    if t.op in ("tuple", "vec"):
        return div(add(*t.args[0]), num(len(t.args[0])))
    if t.op == "shape" and A.ndim(t.args[0]):
        n = A.ndim(t.args[0])
        return div(add(*[mk("dim", t.args[0], num(i)) for i in range(n)]), num(n))
    if kind(t) in ("scalar", "int"):
        return t
    if ip.t(axis) is not NONE:
        return mk("xcall", "numpy.mean", (("a", t), ("axis", ip.t(axis))))
    return mean_(t)


def mean_(t):
    return div(A.reduce_("asum", t), size_(t))


@reg("numpy.std", "a axis=None dtype=None out=None ddof=0")
def _std(ip, a, axis, dtype, out, ddof):
    t = ip.t(a)
    d = ip.t(ddof)
    if ip.t(axis) is not NONE and A.ndim(t) != 1:
        return mk("xcall", "numpy.std", (("a", t), ("axis", ip.t(axis))))
    return sqrt(var_(t, d))


@reg("numpy.var", "a axis=None dtype=None out=None ddof=0")
def _var(ip, a, axis, dtype, out, ddof):
    return var_(ip.t(a), ip.t(ddof))


def var_(t, ddof):
    return div(A.reduce_("asum", pow_(sub(t, mean_(t)), TWO)), sub(size_(t), ddof))


def _arg(names, op):
    def h(ip, a, axis, **kw):
        t = materialise(ip, ip.t(a))
        if t.op == "tuple":
            t = mk("vec", t.args[0])
        if op == "argmax" and (A.isboolarr(t)):
            return mk("firstidx", t)
        return A.argext(op, t)
    for n in names.split():
        REG[n] = parse_sig("a axis=None out=None") + (h,)


_arg("numpy.argmin", "argmin")
_arg("numpy.argmax", "argmax")
_arg("numpy.nanargmin", "nanargmin")
_arg("numpy.nanargmax", "nanargmax")


@reg("numpy.argsort", "a axis=-1 kind=None")
def _argsort(ip, a, axis, kind):
    return ip.new(mk("call", "numpy.argsort", (("a", ip.t(a)),)))


@reg("numpy.sort", "a axis=-1 kind=None")
def _sort(ip, a, axis, kind):
    return ip.new(mk("sorted", ip.t(a)))


@reg("numpy.cumsum", "a axis=None")
def _cumsum(ip, a, axis):
    return ip.new(mk("call", "numpy.cumsum", (("a", ip.t(a)),)))


@reg("numpy.searchsorted", "a v side='left' sorter=None")
def _ss(ip, a, v, side, sorter):
    return mk("call", "numpy.searchsorted", (("a", ip.t(a)), ("v", ip.t(v)), ("side", ip.t(side))))


@reg("numpy.count_nonzero", "a axis=None")
def _cnz(ip, a, axis):
    return mk("count", tobool(ip.t(a)))


@reg("numpy.round", "a decimals=0 out=None")
def _npround(ip, a, decimals, out):
    return elementwise(ip, lambda x: round_(x, ip.t(decimals)), ip.t(a))


@reg("numpy.clip", "a a_min=None a_max=None out=None")
def _clip(ip, a, a_min, a_max, out):
    lo, hi = ip.t(a_min), ip.t(a_max)

    def f(x):
        if hi is not NONE and hi is not INF:
            x = T.mnmx("min", x, hi)
        if lo is not NONE and lo is not neg(INF):
            x = T.mnmx("max", x, lo)
        return x
    r = elementwise(ip, f, ip.t(a))
    o = ip.resolve(out)
    if isinstance(o, VRef):
        ip.write(o, r, "clip(out=)")
        return o
    return r


@reg("numpy.meshgrid", "x y indexing='xy' sparse=False copy=True")
def _meshgrid(ip, x, y, indexing, sparse, copy):
    a, b = ip.t(x), ip.t(y)
    i = ip.t(indexing)
    if ip.t(sparse) is not FALSE or i.op != "const":
        return mk("xcall", "numpy.meshgrid", (("x", a), ("y", b), ("indexing", i)))
    if i.args[0] == "ij":
        return ip.new(ListC([ip.new(mesh("meshy", b, a)), ip.new(mesh("meshx", b, a))]))
    return ip.new(ListC([ip.new(mesh("meshx", a, b)), ip.new(mesh("meshy", a, b))]))


def mesh(op, x, y):
    """grid of the column (meshx) or row (meshy) coordinates; affine maps of an axis come out of the grid"""
    ax = x if op == "meshx" else y
    if ax.op == "sum":
        out = []
        for m, c in ax.args[0]:
            sc, ar = [num(c)], []
            for b, e in m:
                (sc if kind(b) != "arr" and kind(e) != "arr" else ar).append(pow_(b, e))
            if not ar:
                out.append(mul(*sc))
            elif len(ar) == 1:
                out.append(mul(*(sc + [mesh1(op, ar[0], x, y)])))
            else:
                return mk(op, length(x), length(y), ax)
        return add(*out)
    return mesh1(op, ax, x, y)


def mesh1(op, ax, x, y):
    return mk(op, length(x) or mk("len", x), length(y) or mk("len", y), ax)


def dictupd_(a, b):
    if a.op == "dict" and not a.args[0]:
        return b
    if b.op == "dict" and not b.args[0]:
        return a
    return mk("dictupd", a, b)


def dictdel_(a, k):
    """a mapping without a key"""
    if a.op == "dict" and all(x.op == "const" for x, _ in a.args[0]) and k.op == "const":
        return mk("dict", tuple((x, v) for x, v in a.args[0] if x is not k))
    return mk("dictdel", a, k)


T._builders.update({"dictupd": dictupd_})


def scalar_factor(t):
    """(scalar factor, rest) of an array term"""
    if t.op == "sum" and len(t.args[0]) == 1:
        (m, c), = t.args[0]
        sc = [pow_(b, e) for b, e in m if kind(b) != "arr" and kind(e) != "arr"]
        ar = [pow_(b, e) for b, e in m if not (kind(b) != "arr" and kind(e) != "arr")]
        if ar and (sc or c != 1):
            return mul(num(c), *sc), mul(*ar)
    return ONE, t


def blocksum(d, k):
    """sums of k x k blocks of an image"""
    if k is ONE:
        return d
    if d.op == "ite" and kind(d.args[0]) != "arr":
        return ite(d.args[0], blocksum(d.args[1], k), blocksum(d.args[2], k))
    c, d = scalar_factor(d)
    if c is not ONE:
        return mul(c, blocksum(d, k))
    if d.op == "blocksum":
        return mk("blocksum", d.args[0], mul(d.args[1], k))
    r = mk("blocksum", d, k)
    T._setkind(r, "arr")
    return r


@reg("astropy.nddata.block_reduce", "data block_size func=None")
def _block_reduce(ip, data, block_size, func):
    d, k, f = ip.t(data), ip.t(block_size), ip.t(func)
    if k.op in ("tuple", "list", "vec") and len(k.args[0]) == 2 and k.args[0][0] is k.args[0][1]:
        k = k.args[0][0]
    fn = str(f.args[0]) if f.op == "ext" else ""
    if kind(k) == "arr" or k.op in ("tuple", "list", "vec") or not (f is NONE or fn in ("numpy.sum", "numpy.nansum", "numpy.mean")):
        return mk("xcall", "astropy.nddata.block_reduce", (("data", d), ("block_size", k), ("func", f)))
    r = blocksum(d, k)
    if fn == "numpy.nansum":
        return mk("xcall", "astropy.nddata.block_reduce", (("data", d), ("block_size", k), ("func", f)))
    return ip.new(mul(pow_(k, num(-2)), r) if fn == "numpy.mean" else r)


def convolved(a, b, mode):
    if a.op == "ite" and kind(a.args[0]) != "arr":
        return ite(a.args[0], convolved(a.args[1], b, mode), convolved(a.args[2], b, mode))
    if b.op == "ite" and kind(b.args[0]) != "arr":
        return ite(b.args[0], convolved(a, b.args[1], mode), convolved(a, b.args[2], mode))
    c, a = scalar_factor(a)
    c2, b = scalar_factor(b)
    r = mk("convolved", a, b, mode)
    T._setkind(r, "arr")
    return mul(c, c2, r)


@reg("scipy.signal.convolve", "in1 in2 mode='full' method='auto'")
def _convolve(ip, in1, in2, mode, method):
    return ip.new(convolved(ip.t(in1), ip.t(in2), ip.t(mode)))


@reg("scipy.signal.fftconvolve", "in1 in2 mode='full' axes=None")
def _fftconvolve(ip, in1, in2, mode, axes):
    if ip.t(axes) is not NONE:
        return mk("xcall", "scipy.signal.fftconvolve", (("in1", ip.t(in1)), ("in2", ip.t(in2)), ("mode", ip.t(mode)), ("axes", ip.t(axes))))
    return ip.new(convolved(ip.t(in1), ip.t(in2), ip.t(mode)))


T._builders.update({"blocksum": blocksum, "convolved": convolved})


@reg("numpy.allclose", "a b rtol=1e-5 atol=1e-8 equal_nan=False")
def _allclose(ip, a, b, rtol, atol, equal_nan):
    ts = sorted([ip.t(a), ip.t(b)], key=lambda t: t.id)
    return mk("allclose", *ts)


@reg("numpy.isclose", "a b rtol=1e-5 atol=1e-8 equal_nan=False")
def _isclose(ip, a, b, rtol, atol, equal_nan):
    ts = sorted([ip.t(a), ip.t(b)], key=lambda t: t.id)
    return mk("isclose", *ts)


@reg("numpy.array_equal", "a b equal_nan=False")
def _array_equal(ip, a, b, equal_nan):
    return A.reduce_("all", T.eq(ip.t(a), ip.t(b)))


@reg("numpy.isin", "element test_elements assume_unique=False invert=False")
def _isin(ip, element, test_elements, assume_unique, invert):
    x = ip.t(element)
    it = ip.iterlist(test_elements)
    if it is None:
        te = ip.t(test_elements)
        r = mk("isin", x, te)
    else:
        r = or_(*[T.eq(x, ip.t(v)) for v in it])
    inv = ip.t(invert)
    return not_(r) if inv is TRUE else r


@reg("numpy.issubdtype", "a b")
def _issubdtype(ip, a, b):
    ta, tb = ip.t(a), ip.t(b)
    if ta.op == "ext" and tb.op == "ext":
        n, m = ta.args[0], tb.args[0]
        if m == "numpy.number":
            if n in ("builtins.int", "builtins.float", "numpy.float64", "numpy.int64"):
                return TRUE
            if n in ("builtins.str", "builtins.list", "builtins.tuple", "builtins.dict", "builtins.NoneType", "builtins.bool"):
                return FALSE
        if m == "numpy.integer":
            if n in ("builtins.int", "numpy.int64"):
                return TRUE
            if n in ("builtins.float", "builtins.str", "builtins.NoneType", "numpy.float64"):
                return FALSE
    if ta.op == "type":
        return mk("isinst", ta.args[0], tb.args[0] if tb.op == "ext" else "?")
    if ta.op == "cls":
        return FALSE
    return mk("isinst", ta, "sub:" + T.show(tb))


@reg("numpy.isscalar", "x")
def _isscalar(ip, x):
    t = ip.t(x)
    if kind(t) in ("scalar", "int", "str", "bool"):
        return TRUE
    if kind(t) == "arr" or t is NONE:
        return FALSE
    return mk("isinst", t, "scalar")


@reg("numpy.ndim", "x")
def _ndim(ip, x):
    n = A.ndim(ip.t(x))
    return num(n) if n is not None else num(0) if kind(ip.t(x)) in ("scalar", "int") else mk("ndim", ip.t(x))


@reg("numpy.shape", "x")
def _npshape(ip, x):
    return ip.getattr(x, "shape")


@reg("numpy.size", "x")
def _npsize(ip, x):
    return size_(ip.t(x))


@reg("numpy.isin numpy.in1d", "element test_elements assume_unique=False invert=False kind=None")
def _isin(ip, element, test_elements, assume_unique, invert, kind):
    t, inv = ip.t(element), ip.t(invert)
    it = ip.iterlist(test_elements)
    if it is None or inv not in (TRUE, FALSE):
        return mk("xcall", "numpy.isin", (("element", t), ("test_elements", ip.t(test_elements)), ("invert", inv)))
    r = or_(*[elementwise_eq(ip, t, ip.t(x)) for x in it]) if it else full(shape_(t), FALSE)
    return ip.new(not_(r) if inv is TRUE else r)


def elementwise_eq(ip, a, b):
    if b.op in ("vec", "list") and len(b.args[0]) == 1:
        b = b.args[0][0]
    return eq(a, b)


@reg("numpy.squeeze numpy.ravel numpy.atleast_1d", "a")
def _squeeze(ip, a):
    t = ip.t(a)
    if A.ndim(t) == 1 or t.op == "vec":
        return a
    return view(ip, a, mk("xcall", "numpy.squeeze", (("a", t),)))


@reg("numpy.take", "a indices axis=None")
def _take(ip, a, indices, axis):
    return A.getitem(ip.t(a), ip.t(indices))


@reg("numpy.nan_to_num", "x copy=True nan=0.0 posinf=None neginf=None")
def _ntn(ip, x, copy, nan, posinf, neginf):
    t = ip.t(x)
    if t.op == "tuple":
        t = mk("vec", t.args[0])
    v = None
    if ip.t(posinf) is NONE and ip.t(neginf) is NONE:
        # (the infinities it also replaces, by the largest numbers there are, are left alone)
        v = lift(lambda a, b: ite(T.isnan(a), b, a), t, ip.t(nan))
    if v is None:
        v = mk("call", "numpy.nan_to_num", (("x", t), ("nan", ip.t(nan))))
    if ip.t(copy) is not TRUE and isinstance(x, VRef):
        ip.write(x, ite(tobool(ip.t(copy)), ip.t(x), v), "numpy.nan_to_num(copy=False)")
    return v


@reg("numpy.ma.masked_invalid", "a copy=True")
def _mi(ip, a, copy):
    return mk("call", "numpy.ma.masked_invalid", (("a", ip.t(a)),))


@reg("numpy.ma.MaskedArray numpy.ma.array numpy.ma.masked_array", "data mask=False dtype=None copy=False")
def _masked(ip, data, mask, dtype, copy):
    return ip.new(mk("masked", ip.t(data), tobool(ip.t(mask))))


@reg("numpy.ma.masked_where", "condition a copy=True")
def _masked_where(ip, condition, a, copy):
    return ip.new(mk("masked", ip.t(a), tobool(ip.t(condition))))


@reg("numpy.ma.getdata", "a subok=True")
def _getdata(ip, a, subok):
    return attr_term(ip, ip.t(a), "data")


@reg("numpy.ma.getmaskarray numpy.ma.getmask", "arr")
def _getmask(ip, arr):
    t = ip.t(arr)
    if t.op == "masked":
        return t.args[1]
    if k_plain(t):
        return full(shape_(t), FALSE)
    return mk("attr", t, "mask")


@reg("numpy.ma.filled", "a fill_value=None")
def _mafilled(ip, a, fill_value):
    t = ip.t(a)
    if k_plain(t):
        return a
    return method(ip, a, "filled", [fill_value], {})


def _npr(ip, b, i):
    return None


for _n, _s in [
    ("photutils.aperture.EllipticalAperture", "positions a b theta=0.0"),
    ("photutils.aperture.CircularAperture", "positions r"),
    ("photutils.aperture.EllipticalAnnulus", "positions a_in a_out b_out b_in=None theta=0.0"),
    ("photutils.segmentation.detect_sources", "data threshold npixels connectivity=8 mask=None"),
    ("photutils.segmentation.deblend_sources", "data segment_img npixels labels=None nlevels=32 contrast=0.001 mode='exponential' connectivity=8 relabel=True nproc=1 progress_bar=True"),
    ("photutils.segmentation.SourceCatalog", "data segment_img convolved_data=None error=None mask=None background=None wcs=None localbkg_width=0 apermask_method='correct' kron_params=(2.5,1.4,0.0) detection_cat=None progress_bar=False"),
    ("photutils.isophote.EllipseGeometry", "x0 y0 sma eps pa astep=0.1 linear_growth=False fix_center=False fix_pa=False fix_eps=False"),
    ("photutils.isophote.Ellipse", "image geometry=None threshold=0.1"),
    ("astropy.convolution.utils.discretize_model", "model x_range y_range=None mode='center' factor=10"),
    ("astropy.stats.sigma_clip", "data sigma=3.0 sigma_lower=None sigma_upper=None maxiters=5 cenfunc='median' stdfunc='std' axis=None masked=True return_bounds=False copy=True grow=False"),
    ("astropy.stats.sigma_clipped_stats", "data mask=None mask_value=None sigma=3.0 sigma_lower=None sigma_upper=None maxiters=5 cenfunc='median' stdfunc='std' std_ddof=0 axis=None grow=False"),
    ("scipy.interpolate.interp1d", "x y kind='linear' axis=-1 copy=True bounds_error=None fill_value=nan assume_sorted=False"),
    ("scipy.ndimage.rotate", "input angle axes=(1,0) reshape=True output=None order=3 mode='constant' cval=0.0 prefilter=True"),
    ("astropy.wcs.utils.proj_plane_pixel_scales", "wcs"),
    ("astropy.coordinates.SkyCoord", "ra dec unit=None **"),
    ("astropy.modeling.Parameter", "name='' description='' default=None unit=None getter=None setter=None fixed=False tied=False min=None max=None bounds=None prior=None posterior=None mag=False"),
    ("astropy.modeling.models.Sersic2D", "amplitude=1 r_eff=1 n=4 x_0=0 y_0=0 ellip=0 theta=0.0 **"),
    ("astropy.modeling.models.Gaussian2D", "amplitude=1 x_mean=0 y_mean=0 x_stddev=None y_stddev=None theta=None cov_matrix=None **"),
    ("astropy.modeling.models.Planar2D", "slope_x=1 slope_y=1 intercept=0 **"),
    ("astropy.utils.console.ProgressBar", "total_or_items ipython_widget=False file=None"),
    ("warnings.catch_warnings", "**"),
    ("re.split", "pattern string maxsplit=0 flags=0"),
]:
    pure(_n, _s)
FIXLEN["astropy.stats.sigma_clipped_stats"] = 3
FIXLEN["method:do_photometry"] = 2
FIXLEN["astropy.wcs.utils.proj_plane_pixel_scales"] = 2   # celestial 2D images
FIXLEN["matplotlib.pyplot.subplots"] = 2


@reg("astropy.nddata.Cutout2D", "data position size wcs=None mode='trim' fill_value=nan copy=False")
def _cutout(ip, data, position, size, wcs, mode, fill_value, copy):
    dt = ip.t(data)
    items = [("data", dt), ("position", ip.t(position)), ("size", ip.t(size)), ("wcs", ip.t(wcs)), ("mode", ip.t(mode)),
             ("fill_value", ip.t(fill_value))]
    t = mk("call", "astropy.nddata.Cutout2D", tuple(items))
    out_event(ip, "astropy.nddata.Cutout2D", t)
    r = ip.new(t)
    cp = ip.t(copy)
    if cp is FALSE and isinstance(data, VRef):
        o = ip.origin.get(ip.root(data).loc)
        if o is not None:
            # a cutout shares memory with its parent unless it is partial: a store through it may reach the parent
            ip.origin[r.loc] = o
    return r


CANON_CALLS.add("astropy.nddata.Cutout2D")


@reg("astropy.table.Table", "data=None masked=False names=None dtype=None meta=None copy=True rows=None copy_indices=True units=None descriptions=None **")
def _table(ip, data, masked, names, dtype, meta, copy, rows, copy_indices, units, descriptions, kwextra=None):
    names_ = ip.iterlist(names) if ip.t(names) is not NONE else None
    rt = ip.t(rows)
    dt = ip.t(data)
    if names_ is None and dt.op == "dict":
        cols = dt.args[0]
        t = mk("table", tuple((k, v) for k, v in cols))
    elif names_ is not None and rt is not NONE:
        cols = table_cols(ip, rt, len(names_))
        t = mk("table", tuple(zip([ip.t(n) for n in names_], cols))) if cols is not None else \
            mk("xcall", "astropy.table.Table", (("rows", rt), ("names", ip.t(names))))
    elif names_ is not None and dt is not NONE:
        it = ip.iterlist(data)
        if it is not None and len(it) == len(names_):
            t = mk("table", tuple((ip.t(n), ip.t(v)) for n, v in zip(names_, it)))
        else:
            t = mk("xcall", "astropy.table.Table", (("data", dt), ("names", ip.t(names))))
    else:
        t = mk("xcall", "astropy.table.Table", (("data", dt), ("rows", rt), ("names", ip.t(names))))
    ip.event("extcall", ("astropy.table.Table", t))
    if names_ is not None and rt.op in ("map",) and rt.args[1].op in ("vec", "tuple") and len(rt.args[1].args[0]) != len(names_):
        ip.event("table-schema", (len(rt.args[1].args[0]), len(names_)))
    return ip.new(t)


def table_cols(ip, rt, n):
    if rt.op == "ite" and kind(rt.args[0]) != "arr":
        a, b = table_cols(ip, rt.args[1], n), table_cols(ip, rt.args[2], n)
        if a is None or b is None:
            return None
        return [ite(rt.args[0], x, y) for x, y in zip(a, b)]
    if rt.op == "map":
        bs, body = rt.args
        cols = row_cols(body, n)
        if cols is None:
            return None
        return [A.mk_map(bs, c) for c in cols]
    if rt.op == "vec":
        rows = [row_cols(r, n) for r in rt.args[0]]
        if any(r is None for r in rows):
            return None
        return [mk("vec", tuple(r[k] for r in rows)) for k in range(n)]
    return [mk("column", rt, num(k)) for k in range(n)]


def row_cols(body, n):
    if body.op in ("vec", "tuple"):
        return list(body.args[0]) if len(body.args[0]) == n else None
    if body.op == "ite" and kind(body.args[0]) != "arr":
        a, b = row_cols(body.args[1], n), row_cols(body.args[2], n)
        if a is None or b is None:
            return None
        return [ite(body.args[0], x, y) for x, y in zip(a, b)]
    return [A.getitem(body, num(k)) for k in range(n)]


def _pbmap(ip, args, kwargs):
    f = args[0] if args else kwargs["function"]
    it = args[1] if len(args) > 1 else kwargs["items"]
    mp = kwargs.get("multiprocess", args[2] if len(args) > 2 else FALSE)
    ip.event("extcall", ("astropy.utils.console.ProgressBar.map", mk("call", "ProgressBar.map", (("multiprocess", ip.t(mp)),))))
    remote(ip, f, ip.truth(mp))
    return map_call(ip, f, [it])


def remote(ip, f, g=TRUE):
    """a function sent to another process is found there by its module and name"""
    f = ip.resolve(f)
    if isinstance(f, VPartial):
        return remote(ip, f.func, g)
    if isinstance(f, VFunc) and (f.env is not None or "<lambda>" in f.qual):
        ip.raise_if(g, ip.exc("PicklingError"))


def unordered(ip, r):
    """results in the order the processes finish: any order may come, the reverse stands for them"""
    c = ip.content(r) if isinstance(r, VRef) else None
    if isinstance(c, ListC):
        return ip.new(ListC(tuple(reversed(c.items))))
    return ip.new(mk("xcall", "unordered", (("0", ip.t(r)),)))


RAW["astropy.utils.console.ProgressBar.map"] = _pbmap


def _pbmap_un(ip, args, kwargs):
    mp = kwargs.get("multiprocess", args[2] if len(args) > 2 else FALSE)
    r = _pbmap(ip, args, kwargs)
    return r if ip.decide(ip.truth(mp)) is False else unordered(ip, r)


RAW["astropy.utils.console.ProgressBar.map_unordered"] = _pbmap_un
POOLS = ("multiprocessing.Pool", "multiprocessing.pool.Pool", "concurrent.futures.ProcessPoolExecutor", "concurrent.futures.process.ProcessPoolExecutor")
THREADS = ("multiprocessing.pool.ThreadPool", "concurrent.futures.ThreadPoolExecutor", "concurrent.futures.thread.ThreadPoolExecutor")


def pool_method(ip, t, name, args, kwargs):
    if name in ("close", "join", "terminate", "shutdown"):
        return NONE
    if name not in ("map", "imap", "imap_unordered", "starmap") or not args:
        return None
    f, its = args[0], list(args[1:])
    if not its:
        return None
    if "concurrent" not in t.args[0]:
        its = its[:1]
    if t.args[0] in POOLS:
        remote(ip, f)
    if name == "starmap":
        return None
    r = map_call(ip, f, its)
    return unordered(ip, r) if name == "imap_unordered" else r


@reg("warnings.warn", "message category=None stacklevel=1 source=None")
def _warn(ip, message, category, stacklevel, source):
    ip.event("warn", (ip.t(message),))
    return NONE


@reg("warnings.simplefilter warnings.filterwarnings", "action category=None **")
def _sf(ip, action, category, kwextra=None):
    return NONE


@reg("astropy.table.Table.read", "file format=None **")
def _tread(ip, file, format, kwextra=None):
    t = mk("call", "astropy.table.Table.read", (("file", ip.t(file)), ("format", ip.t(format))) +
           tuple((k, ip.t(v)) for k, v in sorted((kwextra or {}).items())))
    out_event(ip, "astropy.table.Table.read", t)
    return ip.new(t)


puremeth("do_photometry", "data error=None mask=None method='exact' subpixels=5", 2)
puremeth("fit_isophote", "sma step=0.1 conver=0.05 minit=10 maxit=50 fflag=0.5 maxgerr=0.5 sclip=3.0 nclip=0 integrmode='bilinear' linear=False maxrit=None noniterate=False going_inwards=False isophote_list=None")
puremeth("match_to_catalog_sky", "catalogcoord nthneighbor=1")
puremeth("to_table", "columns=None")
puremeth("to", "unit")
puremeth("write", "filename format=None overwrite=False **")
puremeth("make_cmap", "background_color='#000000' seed=None")


# `call` first looks for handlers that take raw arguments
_call0 = call


def call(ip, name, args, kwargs):       # noqa: F811
    name = ALIAS.get(name, name)
    h = RAW.get(name)
    if h is not None:
        return h(ip, args, kwargs)
    out = kwargs.get("out")
    if out is not None and name.startswith("numpy.") and ip.t(out) is not NONE:
        kw = {k: v for k, v in kwargs.items() if k != "out"}
        where = kw.pop("where", None)
        r = _call0(ip, name, args, kw)
        o = ip.resolve(out)
        if isinstance(o, VRef):
            t = ip.t(r)
            if where is not None:
                t = elementwise(ip, ite, tobool(ip.t(where)), t, ip.t(o))
            ip.write(o, t, name + "(out=)")
            return o
        return r
    if "where" in kwargs and name in ("numpy.divide",):
        kw = {k: v for k, v in kwargs.items() if k != "where"}
        return elementwise(ip, ite, tobool(ip.t(kwargs["where"])), ip.t(_call0(ip, name, args, kw)), mk("uninit"))
    return _call0(ip, name, args, kwargs)


def getitem_entry(ip, b, ti):
    return getitem_x(ip, b, ti)
for _n in ("lower", "upper", "isdigit", "strip", "isalpha", "isnumeric"):
    if _n not in METH:
        puremeth(_n, "")
puremeth("to", "unit equivalencies=None copy=True")
