"""Physical dimensions of terms.

A dimension is a vector of exponents (terms) over the base units, ANY for a value that fits every unit (0, nan, inf), LOG for the
logarithm of a dimensional quantity, or None where the analysis cannot tell. Conflicts are sums, comparisons, selections and arguments
that combine two different dimensions.
"""
from fractions import Fraction as Fr
from .terms import *
from .terms import Term, as_poly

ANY = "any"
PLAIN_RESULT = {"len", "argmin", "argmax", "firstidx", "any", "all", "isnan", "isnone", "eq0", "le0", "lt0", "and", "or", "not", "dim", "uniqfirst", "uniqinv",
                "wherek", "size", "shape", "argsort", "count", "hasattr", "truth", "isfinite", "bound", "iota", "const", "isinst", "searchsorted", "digitize"}
SAME = {"abs", "amax", "amin", "min", "max", "concat", "vec", "store", "ite", "full", "sorted", "unique", "cumsum", "asum", "median", "mean",
        "where", "flip", "reshape", "T", "ravel", "masked", "fillnan", "elem", "cummax", "tuple1", "copy", "interp_", "std"}
DIMLESS_ARG = {"gamma", "gammainc", "gammaincinv", "sin", "cos", "tan", "tanh", "arcsin", "arccos", "log1p", "expm1", "erf", "gammaincc"}


class Dims:
    def __init__(self, units, symdims, applydims=None, argdims=None, calls=None, columns=None, rounding=False):
        self.n = len(units)
        self.units = units
        self.zero = (ZERO,) * self.n
        self.sym, self.apply, self.args = symdims, applydims or {}, argdims or {}
        self.calls, self.columns, self.rounding = calls or {}, columns or {}, rounding
        self.memo, self.conflicts, self.seen, self.unknown = {}, [], set(), set()

    # ---- vectors
    def vec(self, *e):
        return tuple(num(Fr(x)) for x in e)

    def text(self, d):
        if d is None or d == ANY:
            return "?" if d is None else "any"
        s = "*".join(u if e is ONE else "%s^%s" % (u, show(e, 3)) for u, e in zip(self.units, d) if e is not ZERO)
        return s or "1"

    def same(self, a, b):
        return all(sub(x, y) is ZERO for x, y in zip(a, b))

    def join(self, ds, what, t):
        """common dimension of several values"""
        known = [d for d in ds if d is not None and d != ANY]
        for d in known[1:]:
            if not self.same(known[0], d):
                self.clash(what, sorted({self.text(known[0]), self.text(d)}), t)
                return None
        if any(d is None for d in ds):
            return None if not known else known[0]
        return known[0] if known else ANY

    def clash(self, what, dims, t):
        k = (what, tuple(dims))
        if k not in self.seen:
            self.seen.add(k)
            self.conflicts.append((what, dims, t))

    # ---- inference
    def of(self, t):
        if not isinstance(t, Term):
            return ANY
        if t.id in self.memo:
            return self.memo[t.id]
        self.memo[t.id] = None
        d = self._of(t)
        self.memo[t.id] = d
        return d

    def plain(self, t, what):
        d = self.of(t)
        if d is not None and d != ANY and not self.same(d, self.zero):
            self.clash(what, [self.text(d)], t)

    def visit(self, args):
        out = []
        for a in args:
            if isinstance(a, Term):
                out.append(self.of(a))
            elif isinstance(a, (tuple, list)):
                out += self.visit(a)
        return out

    def _of(self, t):
        op = t.op
        if op == "num":
            return ANY if t is ZERO else self.zero
        if t is NAN or t is INF or op in ("nan", "inf", "undef", "none", "exc"):
            return ANY
        if op == "const":
            return ANY if t.args[0] is None else self.zero
        if op in ("pi", "E"):
            return self.zero
        if op == "sym":
            n = t.args[0]
            while n not in self.sym and n and n[-1].isdigit():
                n = n[:-1]
            return self.sym.get(n)
        if op == "sum":
            return self._sum(t)
        if op in ("ln",):
            d = self.of(t.args[0])
            if d is not None and d != ANY and not self.same(d, self.zero):
                self.clash("the logarithm is taken of", [self.text(d)], t)
            return self.zero
        if op in DIMLESS_ARG:
            for a in t.args:
                self.plain(a, "%s is taken of" % op)
            return self.zero
        if op == "ite":
            self.of(t.args[0])
            return self.join([self.of(t.args[1]), self.of(t.args[2])], "one of two values is chosen between", t)
        if op in ("eq0", "le0", "lt0"):
            self.of(t.args[0])
            return self.zero
        if op in ("min", "max"):
            return self.join(self.visit(t.args), "the extreme is taken of", t)
        if op == "factor":
            return self.of(t.args[0])
        if op == "linspace":
            return self.join([self.of(t.args[0]), self.of(t.args[1])], "a range runs between", t)
        if op == "interp":
            return self._interp(t)
        if op in ("getitem",):
            self.visit(t.args[1:])
            b, i = t.args[0], t.args[1]
            if i.op == "const" and isinstance(i.args[0], str):
                self.of(b)
                return self.columns.get(i.args[0])
            if b.op in ("call", "xcall"):
                r = self._call(b)
                if isinstance(r, list):
                    return r[int(i.args[0])] if i.op == "num" and 0 <= i.args[0] < len(r) else None
                return r
            if b.op == "apply":
                r = self._apply(b)
                if isinstance(r, list) and i.op == "num" and int(i.args[0]) < len(r):
                    return r[int(i.args[0])]
                return None
            return self.of(b)
        if op == "apply":
            r = self._apply(t)
            return None if isinstance(r, list) else r
        if op in ("call", "xcall"):
            r = self._call(t)
            return None if isinstance(r, list) else r
        if op == "attr":
            return self.of(t.args[0]) if t.args[1] in ("value", "data", "T", "real") else None
        if op in ("round", "floor", "ceil", "trunc", "floordiv", "mod"):
            ds = self.visit(t.args[:1])
            d = ds[0] if ds else None
            if not self.rounding and d is not None and d != ANY and not self.same(d, self.zero):
                self.clash("rounding is applied to", [self.text(d)], t)
            return d
        if op in ("allclose", "isclose"):
            for a in self.visit(t.args):
                if a is not None and a != ANY and not self.same(a, self.zero):
                    self.clash("an absolute tolerance is applied to", [self.text(a)], t)
            return self.zero
        if op == "map":
            return self.of(t.args[-1])
        if op == "store":
            return self.join([self.of(t.args[0]), self.of(t.args[2])] if len(t.args) > 2 else self.visit(t.args), "an array holds", t)
        if op in PLAIN_RESULT:
            self.visit(t.args)
            return self.zero
        if op in SAME:
            return self.join(self.visit(t.args), "an array holds" if op in ("vec", "concat") else op + " combines", t)
        self.visit(t.args)
        self.unknown.add(op)
        return None

    def _apply(self, t):
        name, args = t.args[0], dict(t.args[1])
        for k, v in args.items():
            d = self.of(v)
            e = self.args.get((name, k))
            if e is not None and d is not None and d != ANY and not self.same(d, e):
                self.clash("%s of %s is given" % (k, name), [self.text(d), "for " + self.text(e)], v)
        return self.apply.get(name)

    def _call(self, t):
        name, args = t.args[0], dict(t.args[1])
        want, res = self.calls.get(name, ({}, None))
        for k, v in args.items():
            d = self.of(v) if isinstance(v, Term) else None
            e = want.get(k)
            if e is not None and d is not None and d != ANY and not self.same(d, e):
                self.clash("%s of %s is given" % (k, name), [self.text(d), "for " + self.text(e)], v)
        return res({k: self.of(v) for k, v in args.items() if isinstance(v, Term)}) if callable(res) else res

    def _interp(self, t):
        f, x = t.args[0], t.args[1]
        dx = self.of(x)
        if f.op in ("call", "xcall"):
            ks = dict(f.args[1])
            a, b = ks.get("x", ks.get("0")), ks.get("y", ks.get("1"))
            if a is not None and b is not None:
                self.join([self.of(a), dx], "interpolation at", t)
                return self.of(b)
        return None

    def _sum(self, t):
        ds, logs = [], {}
        for m, c in as_poly(t).items():
            d = self.zero
            log = None
            rest = []
            for b, e in m:
                self.plain(e, "an exponent is")
                if b.op == "ln" and e is ONE and log is None:
                    x = self.of(b.args[0]) if not self._log(b) else None
                    if x is not None and x != ANY and not self.same(x, self.zero):
                        log = x
                        continue
                rest.append((b.id, e.id))
                x = self.of(b)
                if x is None:
                    d = None
                    break
                if x == ANY:
                    continue
                d = tuple(add(p, mul(q, e)) for p, q in zip(d, x))
            if log is not None and d is not None:
                k = tuple(rest)
                logs[k] = tuple(add(p, mul(num(c), q)) for p, q in zip(logs.get(k, self.zero), log))
                ds.append(d)
                continue
            ds.append(d)
        for v in logs.values():
            if not self.same(v, self.zero):
                self.clash("the logarithm is taken of", [self.text(v)], t)
        return self.join(ds, "a sum adds", t)

    def _log(self, b):
        return False
