"""Hash-consed terms and their algebraic normal form (the value numbers of the analysis).

Numeric terms are generalised polynomials: sums of coefficient * product(base ** exponent) where a
base is an atom (symbol, call, element, ...), a normalised sum, a number or E (Euler's number) and an
exponent is a rational or another term.  Two expressions with the same normal form compute the same
real value wherever both are defined; identities that need positive bases (splitting logarithms and
fractional powers of products) are applied to every base, which is the usual reading of the formulas
analysed here.
"""
from fractions import Fraction as Fr
from math import gcd, isqrt

_table = {}
_ids = [0]


class Term:
    __slots__ = ("op", "args", "id", "_memo")

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op,) + tuple(("T", a.id) if isinstance(a, Term) else
                        (type(a).__name__, a) if not isinstance(a, tuple) else _tk(a) for a in args)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args = op, args
        _ids[0] += 1
        t.id = _ids[0]
        t._memo = {}
        _table[key] = t
    return t


def _tk(a):
    return tuple(("T", x.id) if isinstance(x, Term) else _tk(x) if isinstance(x, tuple)
                 else (type(x).__name__, x) for x in a)


# ---------------------------------------------------------------- leaves
def num(v):
    if isinstance(v, Term):
        return v
    if isinstance(v, bool):
        return const(v)
    if isinstance(v, float):
        if v != v:
            return NAN
        if v in (float("inf"), float("-inf")):
            return INF if v > 0 else neg(INF)
        v = Fr(repr(v))
    return mk("num", Fr(v))


def const(v):
    return mk("const", v)


def sym(name, kind="any", **props):
    return mk("sym", name, kind, tuple(sorted(props.items())))


NAN = mk("nan")
INF = mk("inf")
E = mk("E")
PI = mk("pi")
TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ZERO = num(0)
ONE = num(1)
TWO = num(2)
HALF = num(Fr(1, 2))


def is_num(t):
    return t.op == "num"


def numval(t):
    return t.args[0]


def boolc(b):
    return TRUE if b else FALSE


# ---------------------------------------------------------------- polynomials
# poly term: op 'sum', args = (((mono), coeff), ...) where mono = ((base, exp), ...)
def as_poly(t):
    """dict mono -> Fraction"""
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "sum":
        return dict(t.args[0])
    return {((t, ONE),): Fr(1)}


def _mkey(m):
    return tuple((b.id, e.id) for b, e in m)


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] is ONE and m[0][0].op != "sum":
            return m[0][0]
        if c != 1 and len(m) == 1 and m[0][1] is ONE and _zeroite(m[0][0]):
            g, a, b = m[0][0].args
            return ite(g, mul(num(c), a), mul(num(c), b))
    items = tuple(sorted(p.items(), key=lambda kv: _mkey(kv[0])))
    return mk("sum", items)


def _scal(t):
    """Arrays filled with one value take part in arithmetic as that value."""
    if t.op == "full":
        return t.args[1]
    if t.op == "const" and isinstance(t.args[0], bool):
        return num(int(t.args[0]))
    return t


def has_nan(t):
    return t is NAN


def add(*ts):
    p = {}
    inf = None
    for t in ts:
        t = _scal(t)
        if t is NAN:
            return NAN
        if t is INF:
            inf = INF
        for m, c in as_poly(t).items():
            p[m] = p.get(m, 0) + c
    if inf is not None and all(m == () or (len(m) == 1 and m[0][0] is INF) for m in p):
        c = p.get(((INF, ONE),), 0)
        if c > 0:
            return INF
    return from_poly(p)


def neg(t):
    return mul(num(-1), t)


def sub(a, b):
    return add(a, neg(b))


def mono_mul(m1, m2):
    """Multiply two monomials; returns a list of (mono, coeff) terms as a poly dict."""
    d = {}
    for b, e in m1 + m2:
        if b in d:
            d[b] = add(d[b], e)
        else:
            d[b] = e
    return norm_mono(d)


def _zeroite(b):
    """an elementwise choice between a value and zero"""
    return b.op == "ite" and (b.args[1] is ZERO or b.args[2] is ZERO) and kind(b.args[0]) == "arr"


def norm_mono(d):
    """d: base -> exponent. returns poly dict (after reductions)"""
    if len(d) > 1:
        for b, e in d.items():
            if e is ONE and _zeroite(b):
                rest = from_poly(norm_mono({k: v for k, v in d.items() if k is not b}))
                g, x, y = b.args
                return as_poly(ite(g, mul(rest, x), mul(rest, y)))
    coeff = Fr(1)
    extra = []  # polys to multiply in
    out = {}
    for b, e in d.items():
        if e is ZERO:
            continue
        if b is NAN:
            return {((NAN, ONE),): Fr(1)}
        if b.op == "num" and is_num(e):
            ev = numval(e)
            if ev.denominator == 1:
                coeff *= numval(b) ** int(ev)
                continue
            k = ev.numerator // ev.denominator
            if k != 0 and numval(b) != 0:
                coeff *= numval(b) ** k
                e = num(ev - k)
            out[b] = e
            continue
        if b.op == "abs" and is_num(e) and numval(e).denominator == 1 and int(numval(e)) % 2 == 0:
            extra.append(pow_(b.args[0], e))
            continue
        if b.op == "sum" and is_num(e) and numval(e).denominator == 1 and 0 < numval(e) <= 6:
            extra.append(pow_(b, e))
            continue
        if b.op == "sin" and is_num(e) and numval(e).denominator == 1 and numval(e) >= 2:
            n = int(numval(e))
            k = n // 2
            extra.append(pow_(sub(ONE, pow_(mk("cos", *b.args), TWO)), num(k)))
            if n % 2:
                out[b] = ONE
            continue
        out[b] = e
    # b ** (k * ln y / ln b) -> y ** k
    for b in list(out):
        if b.op == "num" and not is_num(out[b]):
            r = _pow_log(b, out[b])
            if r is not None:
                del out[b]
                extra.append(r)
        elif b is E and not is_num(out[b]):
            r = _exp_log(out[b])
            if r is not None:
                del out[b]
                extra.append(r)
    m = tuple(sorted(out.items(), key=lambda be: (be[0].id, be[1].id)))
    p = {m: coeff}
    for x in extra:
        p = poly_mul(p, as_poly(x))
    return p


def _exp_log(e):
    p = as_poly(e)
    for m, c in p.items():
        if len(m) == 1 and m[0][0].op == "ln" and m[0][1] is ONE:
            rest = from_poly({k: v for k, v in p.items() if k != m})
            return mul(pow_(m[0][0].args[0], num(c)), pow_(E, rest))
    return None


def _pow_log(b, e):
    lb = mk("ln", b)
    p = as_poly(e)
    for m, c in p.items():
        d = dict(m)
        if d.get(lb) is num(-1):
            lns = [x for x in d if x.op == "ln" and x is not lb and d[x] is ONE]
            if len(lns) == 1:
                others = tuple((x, y) for x, y in m if x is not lb and x is not lns[0])
                k = from_poly({others: c})
                rest = from_poly({kk: v for kk, v in p.items() if kk != m})
                return mul(pow_(lns[0].args[0], k), pow_(b, rest))
    return None


def poly_mul(p1, p2):
    out = {}
    for m1, c1 in p1.items():
        for m2, c2 in p2.items():
            if not m1 and not m2:
                out[()] = out.get((), 0) + c1 * c2
                continue
            for m, c in mono_mul(m1, m2).items():
                out[m] = out.get(m, 0) + c * c1 * c2
    return out


_MAXTERMS = 400


def mul(*ts):
    p = {(): Fr(1)}
    for t in ts:
        t = _scal(t)
        if t is NAN:
            return NAN
        q = as_poly(t)
        if len(p) * len(q) > _MAXTERMS:
            # too large to expand: keep one factor as an opaque base
            big = from_poly(p)
            p = poly_mul({((mk("factor", big), ONE),): Fr(1)}, q)
        else:
            p = poly_mul(p, q)
    if any(any(b is INF for b, e in m) for m in p):
        r = _inf_reduce(p)
        if r is not None:
            return r
    return from_poly(p)


def _inf_reduce(p):
    if len(p) != 1:
        return None
    (m, c), = p.items()
    pos = True
    for b, e in m:
        if b is INF:
            if is_num(e) and numval(e) < 0:
                return ZERO if len(m) == 1 or True else None
            continue
        if not positive(b):
            pos = False
    if pos and c > 0:
        return INF
    return None


def div(a, b):
    return mul(a, pow_(b, num(-1)))


def _iroot(n, k):
    if n < 0:
        return None
    if k == 2:
        r = isqrt(n)
        return r if r * r == n else None
    r = round(n ** (1.0 / k))
    for c in (r - 1, r, r + 1):
        if c >= 0 and c ** k == n:
            return c
    return None


def num_pow(v, e):
    """rational ** rational as a term"""
    if e.denominator == 1:
        if v == 0 and e < 0:
            return INF
        return num(v ** int(e))
    if v == 0:
        return ZERO if e > 0 else INF
    if v == 1:
        return ONE
    if v > 0:
        a, b = _iroot(v.numerator, e.denominator), _iroot(v.denominator, e.denominator)
        if a is not None and b is not None:
            return num(Fr(a, b) ** e.numerator)
        if v.denominator != 1:
            return mul(num_pow(Fr(v.numerator), e), num_pow(Fr(v.denominator), -e))
    k = e.numerator // e.denominator
    frac = e - k
    return from_poly({((num(v), num(frac)),): Fr(v) ** k})


def pow_(b, e):
    b, e = _scal(b), _scal(e)
    if b is NAN or e is NAN:
        return NAN
    if e is ZERO:
        return ONE
    if e is ONE:
        return b
    if is_num(b) and is_num(e):
        return num_pow(numval(b), numval(e))
    if b is INF:
        if is_num(e):
            return INF if numval(e) > 0 else ZERO
        if positive(e):
            return INF
    if is_num(b) and numval(b) == 1:
        return ONE
    if b.op == "sum":
        p = as_poly(b)
        if len(p) == 1:
            (m, c), = p.items()
            out = num_pow(c, numval(e)) if is_num(e) and (c > 0 or numval(e).denominator == 1) else None
            if out is None:
                if c > 0:
                    out = ONE if c == 1 else from_poly(norm_mono({num(c): e}))
                    if c != 1 and c.denominator != 1 and c.numerator == 1:
                        out = from_poly(norm_mono({num(c.denominator): neg(e)}))
                else:
                    return from_poly(norm_mono({b: e}))
            for bb, ee in m:
                out = mul(out, pow_one(bb, ee, e))
            return out
        if is_num(e) and numval(e).denominator == 1 and numval(e) > 0:
            n = int(numval(e))
            if n <= 6 and len(p) ** n <= 200:
                r = p
                for _ in range(n - 1):
                    r = poly_mul(r, p)
                return from_poly(r)
            return from_poly({((b, e),): Fr(1)})
        # negative / fractional / symbolic power of a sum: take out common factors
        content, prim = factor_content(b)
        if content is not ONE:
            if prim is ONE:
                return pow_(content, e)
            return mul(pow_(content, e), pow_(prim, e))
        if is_num(e) and numval(e).denominator != 1 and numval(e) > 1:
            k = numval(e).numerator // numval(e).denominator
            return mul(pow_(b, num(k)), pow_(b, num(numval(e) - k)))
        return from_poly(norm_mono({b: e}))
    if b.op in ("ite",) and False:
        pass
    return pow_one(b, ONE, e)


def pow_one(b, e1, e2):
    """(b ** e1) ** e2"""
    if e1 is ONE:
        if b.op == "sum" or (is_num(b) and is_num(e2)):
            return pow_(b, e2)
        return from_poly(norm_mono({b: e2}))
    e = mul(e1, e2)
    if is_num(e1) and numval(e1).denominator == 1 and int(numval(e1)) % 2 == 0 and not (
            is_num(e2) and numval(e2).denominator == 1) and not positive(b):
        b = abs_(b)
        if b.op == "sum":
            return pow_(b, e)
    if e is ONE:
        return b
    return from_poly(norm_mono({b: e}))


def factor_content(t):
    """t (a sum of >=2 terms) = content * primitive; content a monomial (with positive rational)."""
    p = as_poly(t)
    # numeric content
    nums = [c.numerator for c in p.values()]
    dens = [c.denominator for c in p.values()]
    g = 0
    for n in nums:
        g = gcd(g, abs(n))
    l = 1
    for d in dens:
        l = l * d // gcd(l, d)
    c = Fr(g, l)
    # monomial content: minimum numeric exponent of every base
    bases = {}
    for m in p:
        for b, e in m:
            if is_num(e):
                bases.setdefault(b, None)
    content = {}
    for b in bases:
        mn = None
        for m in p:
            e = dict(m).get(b)
            if e is not None and not is_num(e):
                mn = Fr(0)
                break
            v = numval(e) if e is not None else Fr(0)
            mn = v if mn is None else min(mn, v)
        if mn and (mn < 0 or b.op != "sum"):
            content[b] = num(mn)
    # symbolic exponents shared by all terms
    first = next(iter(p))
    for b, e in first:
        if not is_num(e) and all(dict(m).get(b) is e for m in p):
            content[b] = e
    if c == 1 and not content:
        return ONE, t
    prim = {}
    for m, cc in p.items():
        d = dict(m)
        for b, e in content.items():
            d[b] = sub(d.get(b, ZERO), e)
        for mm, c2 in norm_mono(d).items():
            prim[mm] = prim.get(mm, 0) + c2 * cc / c
    ct = mul(num(c), *[pow_one(b, ONE, e) for b, e in content.items()])
    return ct, from_poly(prim)


def sqrt(t):
    return pow_(t, HALF)


def exp(t):
    return pow_(E, t)


def ln(t):
    t = _scal(t)
    if t is NAN:
        return NAN
    if t is INF:
        return INF
    if t is ONE:
        return ZERO
    if t is E:
        return ONE
    if t is ZERO:
        return neg(INF)
    p = as_poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        if m and c > 0:
            out = [mk("ln", num(c.numerator)) if c.numerator != 1 else ZERO,
                   neg(mk("ln", num(c.denominator))) if c.denominator != 1 else ZERO]
            for b, e in m:
                out.append(mul(e, ONE if b is E else mk("ln", b)))
            return add(*out)
        if not m and c > 0 and c.denominator != 1:
            return sub(ln(num(c.numerator)), ln(num(c.denominator)))
        if not m:
            return mk("ln", t)
    else:
        content, prim = factor_content(t)
        if content is not ONE:
            return add(ln(content), ln(prim))
    return mk("ln", t)


def log10(t):
    return div(ln(t), mk("ln", num(10)))


def abs_(t):
    t = _scal(t)
    if t is NAN:
        return t
    if is_num(t):
        return num(abs(numval(t)))
    if positive(t) or nonneg(t):
        return t
    p = as_poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        out = num(abs(c))
        for b, e in m:
            if positive(b) or b is E or (is_num(e) and numval(e).denominator == 1 and int(numval(e)) % 2 == 0):
                out = mul(out, pow_one(b, ONE, e))
            elif b.op == "abs":
                out = mul(out, pow_one(b, ONE, e))
            else:
                out = mul(out, from_poly(norm_mono({mk("abs", _signnorm(b)[1]): e})))
        return out
    content, prim = factor_content(t)
    if content is not ONE:
        return mul(abs_(content), abs_(prim))
    return mk("abs", _signnorm(t)[1])


def _signnorm(t):
    """(sign, term) with a canonical sign: t == sign * term"""
    p = as_poly(t)
    if not p:
        return 1, t
    lead = min(p.items(), key=lambda kv: (kv[0] == (), _mkey(kv[0])))
    if lead[1] < 0:
        return -1, neg(t)
    return 1, t


def cos(t):
    if t is ZERO:
        return ONE
    return mk("cos", _signnorm(t)[1])


def sin(t):
    if t is ZERO:
        return ZERO
    s, u = _signnorm(t)
    r = mk("sin", u)
    return r if s > 0 else neg(r)


_POSOPS = {"gamma", "len", "E", "pi", "size"}


def positive(t):
    """syntactically strictly positive"""
    if t.op == "num":
        return numval(t) > 0
    if t.op in ("E", "pi", "inf"):
        return True
    if t.op == "sym":
        return dict(t.args[2]).get("pos", False)
    if t.op in ("gamma", "gammaincinv", "factor"):
        return t.op != "factor"
    if t.op == "ln" and is_num(t.args[0]):
        return numval(t.args[0]) > 1
    if t.op == "getitem":
        return positive(t.args[0])
    if t.op == "sum":
        for m, c in t.args[0]:
            if c < 0:
                return False
            for b, e in m:
                if b is E:
                    continue
                if not positive(b):
                    return False
        return True
    if t.op == "ite":
        return positive(t.args[1]) and positive(t.args[2])
    return False


def nonneg(t):
    if positive(t):
        return True
    if t.op == "num":
        return numval(t) >= 0
    if t.op in ("abs", "len", "std", "amaxlen", "size"):
        return True
    if t.op == "sum":
        for m, c in t.args[0]:
            if c < 0:
                return False
            for b, e in m:
                if b is E or nonneg(b):
                    continue
                if is_num(e) and numval(e).denominator == 1 and int(numval(e)) % 2 == 0:
                    continue
                if is_num(e) and numval(e).denominator % 2 == 0:
                    continue
                return False
        return True
    return False


# ---------------------------------------------------------------- kinds
SCALAR = {"float", "int", "str", "bool", "scalar"}
ARR = {"arr", "arr1", "arr2", "barr"}
_SCALAR_OPS = {"num", "nan", "inf", "E", "pi", "len", "round", "trunc", "floor", "ceil", "mod", "size",
               "lt0", "le0", "eq0", "eq", "isnone", "isinst", "cos", "sin", "ln", "abs", "max", "min",
               "not", "and", "or", "ite", "gamma", "gammainc", "gammaincinv", "isnan", "sum", "floordiv",
               "tan", "arctan", "arctan2", "arcsin", "arccos", "erf", "sign", "isfinite", "factor"}
_REDUCE = {"amin", "amax", "asum", "argmin", "argmax", "nanargmin", "nanargmax", "nanstd", "bigsum", "median", "nanmin", "nanmax",
           "nansum", "nanmean", "nanmedian", "aprod"}


def T_elemint(t):
    """are all elements of the array integers?"""
    if t.op in ("trunc", "floor", "ceil", "iota", "shape", "floordiv"):
        return True
    if t.op == "round":
        return t.args[1] is ZERO
    if t.op in ("vec", "tuple"):
        return all(kind(x) == "int" for x in t.args[0])
    if t.op == "sum":
        return all(c.denominator == 1 and all((kind(b) == "int" or T_elemint(b)) and is_num(e) and numval(e).denominator == 1 and
                                              numval(e) > 0 for b, e in m) for m, c in t.args[0])
    return False


def kind(t):
    """'scalar' | 'int' | 'arr' | 'str' | 'bool' | 'obj' | None (unknown)"""
    r = t._memo.get("kind", 0)
    if r == 0:
        r = t._memo["kind"] = _kind(t)
    return r


def _setkind(t, k):
    t._memo["kind"] = {"float": "scalar"}.get(k, k)


def _kind(t):
    op = t.op
    if op == "num":
        return "int" if numval(t).denominator == 1 else "scalar"
    if op == "const":
        v = t.args[0]
        return "bool" if isinstance(v, bool) else "str" if isinstance(v, str) else "none" if v is None else None
    if op == "sym" or op == "bound":
        k = t.args[1] if op == "sym" else "int"
        if k in ARR:
            return "arr"
        if k in ("float", "scalar"):
            return "scalar"
        if k in ("int", "str", "bool"):
            return k
        if k.startswith("obj"):
            return "obj"
        return None
    if op in ("any", "all", "exists", "forall"):
        return "bool"
    if op in ("amin", "amax"):
        return "int" if T_elemint(t.args[0]) else "scalar"
    if op in _REDUCE or op == "len" or op == "size":
        return "int" if op in ("argmin", "argmax", "nanargmin", "nanargmax", "len", "size") else "scalar"
    if op in ("full", "map", "concat", "iota", "linspace", "where", "gather", "store", "meshx", "meshy",
              "range", "diff", "block", "uniq", "uniqinv", "uniqfirst", "blocksum", "convolved"):
        return "arr"
    if op == "sum":
        ks = set()
        for m, c in t.args[0]:
            if c.denominator != 1:
                ks.add("scalar")
            for b, e in m:
                ks.add(kind(b))
                if not (is_num(e) and numval(e).denominator == 1 and numval(e) > 0):
                    ks.add("scalar" if kind(e) != "arr" else "arr")
        return _joinkind(ks)
    if op in ("abs", "max", "min", "mod", "floordiv"):
        return _joinkind({kind(a) for a in t.args})
    if op in ("trunc", "floor", "ceil"):
        k = kind(t.args[0])
        return "int" if k in ("int", "scalar", None) else k
    if op == "round":
        k = kind(t.args[0])
        return "int" if t.args[1] is ZERO and k == "scalar" else k
    if op == "interp":
        return kind(t.args[1])
    if op in ("count", "firstidx", "lastidx", "dim", "ndim", "intof", "index_of"):
        return "int"
    if op in ("str", "fmt", "strm"):
        return "str" if t.args[0] != "isdigit" else "bool"
    if op in ("hasattr", "callable", "allclose"):
        return "bool"
    if op in ("where0", "vec", "sorted"):
        return "arr"
    if op == "extconst":
        return "scalar"
    if op == "masked":
        return "arr"
    if op == "isclose":
        return "arr"
    if op == "ite":
        ks = {kind(t.args[1]), kind(t.args[2])}
        kc = kind(t.args[0])
        if kc == "arr":
            return "arr"
        return _joinkind(ks)
    if op in ("lt0", "le0", "eq0", "not", "isnan", "isfinite", "ln", "cos", "sin", "gamma", "gammainc", "gammaincinv", "tan"):
        ks = _joinkind({kind(a) for a in t.args if isinstance(a, Term)})
        return ks if ks == "arr" else ("bool" if op in ("lt0", "le0", "eq0", "not", "isnan", "isfinite") and ks is not None else
                                       "scalar" if ks is not None else None)
    if op in ("and", "or"):
        ks = {kind(a) for a in t.args}
        return "arr" if "arr" in ks else None if None in ks else "bool"
    if op in ("eq", "isnone", "isinst", "raised", "contains"):
        return "bool"
    if op == "getitem":
        k = kind(t.args[0])
        if k == "arr":
            ki = kind(t.args[1])
            if t.args[1].op in ("slice", "tuple"):
                return "arr" if t.args[1].op == "slice" or any(x.op == "slice" for x in t.args[1].args[0]) else None
            if ki == "arr":
                return "arr"
            base = t.args[0]
            if base.op == "sym" and base.args[1] == "arr1":
                return "scalar"
            if base.op in ("linspace", "iota", "map"):
                return "scalar"
            return None
        return None
    if op in ("nan", "inf", "E", "pi"):
        return "scalar"
    if op == "call":
        return _CALLKIND.get(t.args[0])
    return None


_CALLKIND = {"scipy.special.gammaincinv": "scalar"}


def _joinkind(ks):
    if "arr" in ks:
        return "arr"
    if None in ks:
        return None
    ks.discard("bool")
    if not ks:
        return "bool"
    if ks == {"int"}:
        return "int"
    if ks <= {"int", "scalar"}:
        return "scalar"
    if len(ks) == 1:
        return next(iter(ks))
    return None


def isint(t):
    return kind(t) == "int"


# ---------------------------------------------------------------- booleans
def _cmpnorm(p):
    """scale a poly term by a positive factor so that equal tests coincide"""
    d = as_poly(p)
    if not d:
        return p
    if len(d) > 1 and any(positive(b) for m in d for b, e in m):
        first = next(iter(d))
        for b, e in first:
            if is_num(e) and positive(b) and b.op != "E" and all(any(x is b and is_num(y) for x, y in m) for m in d):
                k = min((numval(y) for m in d for x, y in m if x is b))
                return _cmpnorm(mul(p, pow_(b, num(-k))))
    elif len(d) == 1:
        (m, c), = d.items()
        pos = [(b, e) for b, e in m if positive(b) and b.op != "E"]
        if pos and len(pos) < len(m):
            return _cmpnorm(from_poly({tuple(be for be in m if be not in pos): c}))
    g, l = 0, 1
    for c in d.values():
        g = gcd(g, abs(c.numerator))
        l = l * c.denominator // gcd(l, c.denominator)
    s = Fr(l, g)
    return mul(num(s), p) if s != 1 else p


def lt0(p):
    if is_num(p):
        return boolc(numval(p) < 0)
    if p is NAN:
        return FALSE
    if p is INF:
        return FALSE
    if nonneg(p):
        return FALSE
    if positive(neg(p)):
        return TRUE
    p = _cmpnorm(p)
    if isint(p):
        # p < 0  <=>  p + 1 <= 0
        return mk("le0", add(p, ONE))
    return mk("lt0", p)


def le0(p):
    if is_num(p):
        return boolc(numval(p) <= 0)
    if p is NAN:
        return FALSE
    if p is INF or positive(p):
        return FALSE
    if nonneg(neg(p)):
        return TRUE
    p = _cmpnorm(p)
    return mk("le0", p)


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return le0(sub(a, b))


def _numeric(t):
    return t.op in ("num", "sum", "nan", "inf") or kind(t) in ("scalar", "int", "arr")


def eq(a, b):
    if a is b:
        return TRUE if a is not NAN else FALSE
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args[0]) != len(b.args[0]):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args[0], b.args[0])])
    ca, cb = a.op in ("const", "num"), b.op in ("const", "num")
    if ca and cb:
        va, vb = a.args[0], b.args[0]
        return boolc(va == vb)
    if a.op == "const" and a.args[0] is None or b.op == "const" and b.args[0] is None:
        o = b if a.op == "const" and a.args[0] is None else a
        return isnone(o)
    for x, y in ((a, b), (b, a)):
        if x.op == "const" and isinstance(x.args[0], str) and kind(y) in ("scalar", "int", "arr", "bool") \
                and y.op != "const":
            return FALSE
        if x.op == "const" and isinstance(x.args[0], bool):
            if kind(y) == "bool":
                return y if x.args[0] else not_(y)
            if y.op in ("num",):
                return boolc(x.args[0] == numval(y))
            if kind(y) in ("scalar", "int"):
                return eq(num(int(x.args[0])), y)
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and y.op == "num" and x.args[1].op == "num" and x.args[2].op == "num" and kind(x.args[0]) != "arr":
            return ite(x.args[0], boolc(x.args[1] is y), boolc(x.args[2] is y))
    if _numeric(a) and _numeric(b) or a.op == "num" and kind(b) is None or b.op == "num" and kind(a) is None:
        p = sub(a, b)
        if p.op == "num":
            return boolc(numval(p) == 0)
        if positive(p) or positive(neg(p)):
            return FALSE
        d = as_poly(p)
        if len(d) == 2:          # x == int(x) (floor, ceil, round): x is a whole number
            for (m1, c1), (m2, c2) in (tuple(d.items()), tuple(d.items())[::-1]):
                if c1 == -c2 and len(m1) == 1 and m1[0][1] is ONE and m1[0][0].op in ("trunc", "floor", "ceil", "round") and \
                        len(m1[0][0].args) == 1 and m1[0][0].args[0] is from_poly({m2: Fr(1)}):
                    return mk("eq0", mk("mod", m1[0][0].args[0], ONE))
        p = _cmpnorm(p)
        return mk("eq0", _signnorm(p)[1])
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


def isnone(t):
    if t is NONE:
        return TRUE
    if t.op == "const" or t.op in ("num", "sum", "tuple", "list", "dict", "nan", "inf", "full", "map", "concat"):
        return FALSE
    if t.op == "sym":
        return mk("isnone", t) if t.args[1] == "any" else FALSE
    if t.op == "ite":
        return ite(t.args[0], isnone(t.args[1]), isnone(t.args[2]))
    if kind(t) is not None or t.op not in _MAYBE_NONE:
        return FALSE
    return mk("isnone", t)


_MAYBE_NONE = {"attr", "getitem", "getkey", "dictget", "call", "mcall", "xcall", "apply", "phi", "opaque", "bound", "fold", "acc",
               "lookup", "get", "next", "pop", "undef", "sym", "star", "method", "cyclic", "getattr", "setattr", "elem"}


def isnan(t):
    t = _scal(t)
    if t is NAN:
        return TRUE
    if t.op in ("num", "const", "inf", "pi", "E", "len"):
        return FALSE
    if t.op == "ite":
        return ite(t.args[0], isnan(t.args[1]), isnan(t.args[2]))
    if t.op == "masked":
        return mk("masked", isnan(t.args[0]), t.args[1])
    return mk("isnan", t)


def not_(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    if t.op == "lt0":
        return le0(neg(t.args[0]))
    if t.op == "le0":
        return lt0(neg(t.args[0]))
    if t.op == "and":
        return or_(*[not_(a) for a in t.args])
    if t.op == "or":
        return and_(*[not_(a) for a in t.args])
    if t.op == "ite":
        return ite(t.args[0], not_(t.args[1]), not_(t.args[2]))
    if t.op == "full":
        return mk("full", t.args[0], not_(t.args[1]))
    if t.op == "any" and t.args[0].op in ("not", "lt0", "le0", "isnan", "eq0", "and", "or"):
        return mk("all", not_(t.args[0]))
    if t.op == "all" and t.args[0].op in ("not", "lt0", "le0", "isnan", "eq0", "and", "or"):
        return mk("any", not_(t.args[0]))
    if t.op == "num":
        return boolc(numval(t) == 0)
    if t.op == "const":
        return boolc(not t.args[0])
    return mk("not", t)


def _flat(op, ts):
    out = []
    for t in ts:
        if t.op == op:
            out.extend(t.args)
        else:
            out.append(t)
    seen, res = set(), []
    for t in sorted(out, key=lambda x: x.id):
        if t.id not in seen:
            seen.add(t.id)
            res.append(t)
    return res


def _boolify(t):
    if t.op == "num":
        return boolc(numval(t) != 0)
    if t.op == "const" and not isinstance(t.args[0], bool):
        return boolc(bool(t.args[0]))
    if t.op == "full":
        return _boolify(t.args[1])
    return t


def and_(*ts):
    ts = [_boolify(t) for t in ts]
    res = [t for t in _flat("and", ts) if t is not TRUE]
    if any(t is FALSE for t in res):
        return FALSE
    s = set(res)
    for t in res:
        if not_(t) in s:
            return FALSE
    # absorption: drop or-clauses containing a member
    res = [t for t in res if not (t.op == "or" and any(a in s for a in t.args))]
    # unit resolution inside or-clauses
    out = []
    changed = False
    for t in res:
        if t.op == "or":
            keep = [a for a in t.args if not_(a) not in s]
            if len(keep) != len(t.args):
                changed = True
                t = or_(*keep)
        out.append(t)
    if changed:
        return and_(*out)
    if not res:
        return TRUE
    if len(res) == 1:
        return res[0]
    return mk("and", *sorted(res, key=lambda x: x.id))


def or_(*ts):
    ts = [_boolify(t) for t in ts]
    res = [t for t in _flat("or", ts) if t is not FALSE]
    if any(t is TRUE for t in res):
        return TRUE
    s = set(res)
    for t in res:
        if not_(t) in s:
            return TRUE
    res = [t for t in res if not (t.op == "and" and any(a in s for a in t.args))]
    out = []
    changed = False
    for t in res:
        if t.op == "and":
            keep = [a for a in t.args if not_(a) not in s]
            if len(keep) != len(t.args):
                changed = True
                t = and_(*keep)
        out.append(t)
    if changed:
        return or_(*out)
    if not res:
        return FALSE
    if len(res) == 1:
        return res[0]
    return mk("or", *sorted(res, key=lambda x: x.id))


def ite(c, a, b):
    c = _boolify(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "ite":
        # ite(ite(p,x,y),a,b)
        return ite(or_(and_(c.args[0], c.args[1]), and_(not_(c.args[0]), c.args[2])), a, b)
    # booleans
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a is TRUE:
        return or_(c, b) if _isbool(b) else mk("ite", c, a, b)
    if b is FALSE:
        return and_(c, a) if _isbool(a) else mk("ite", c, a, b)
    if a is FALSE and _isbool(b):
        return and_(not_(c), b)
    if b is TRUE and _isbool(a):
        return or_(not_(c), a)
    # min / max
    if c.op in ("lt0", "le0"):
        p = c.args[0]
        if _numeric(a) and _numeric(b):
            d = sub(a, b)
            if p is _cmpnorm(d) or (isint(p) and p is _cmpnorm(add(_cmpnorm(d), ONE))):   # a < b ? a : b
                return mnmx("min", a, b)
            if p is _cmpnorm(neg(d)) or (isint(p) and p is _cmpnorm(add(_cmpnorm(neg(d)), ONE))):
                return mnmx("max", a, b)
    # nested same condition
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    nc = not_(c)
    if a.op == "ite" and a.args[0] is nc:
        a = a.args[2]
    if b.op == "ite" and b.args[0] is nc:
        b = b.args[1]
    if a is b:
        return a
    # merge: ite(c, x, ite(d, x, y)) = ite(c or d, x, y); ite(c, ite(d,x,y), y) = ite(c and d, x, y)
    if b.op == "ite" and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if a.op == "ite" and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    if nc.id < c.id or nc.op in ("lt0", "le0") and c.op in ("or",):
        c, a, b = nc, b, a
        if c.op == "not":
            return mk("ite", c.args[0], b, a)
    return mk("ite", c, a, b)


def _isbool(t):
    return t.op in ("lt0", "le0", "eq0", "eq", "not", "and", "or", "isnan", "isnone", "isinst", "raised",
                    "contains", "any", "all", "exists") or (t.op == "const" and isinstance(t.args[0], bool)) \
        or kind(t) == "bool"


def mnmx(op, *ts):
    out = []
    for t in ts:
        t = _scal(t)
        if t.op == op:
            out.extend(t.args)
        else:
            out.append(t)
    nums = [t for t in out if is_num(t)]
    rest = sorted({t for t in out if not is_num(t)}, key=lambda t: t.id)
    if nums:
        v = (min if op == "min" else max)(numval(t) for t in nums)
        rest = rest + [num(v)]
    if INF in rest and len(rest) > 1:
        rest.remove(INF)
        if op == "max":
            return INF
    if len(rest) == 1:
        return rest[0]
    return mk(op, *rest)


# ---------------------------------------------------------------- traversal
def children(t):
    out = []
    _ch(t.args, out)
    return out


def _ch(a, out):
    for x in a:
        if isinstance(x, Term):
            out.append(x)
        elif isinstance(x, tuple):
            _ch(x, out)


def subterms(t):
    seen, st, out = set(), [t], []
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        st.extend(children(x))
    return out


def depends(t, pred):
    return any(pred(s) for s in subterms(t))


def syms(t):
    r = t._memo.get("syms")
    if r is None:
        r = frozenset(s for s in subterms(t) if s.op == "sym")
        t._memo["syms"] = r
    return r


def bounds(t):
    """free bound variables"""
    r = t._memo.get("fb")
    if r is None:
        if t.op == "bound":
            r = frozenset([t])
        else:
            r = frozenset()
            for c in children(t):
                r |= bounds(c)
            if t.op in ("map", "bigsum", "exists", "filtermap", "last", "forall"):
                r -= frozenset(t.args[0])
        t._memo["fb"] = r
    return r


_builders = {}


def builder(op):
    def deco(f):
        _builders[op] = f
        return f
    return deco


def rebuild(op, args):
    f = _builders.get(op)
    if f is not None:
        return f(*args)
    return mk(op, *args)


def rewrite(t, fn, memo=None):
    """bottom-up rewrite; fn(term) -> term or None, applied before descending."""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    r = fn(t)
    if r is None:
        if t.op in ("map", "bigsum", "exists", "filtermap", "last", "forall"):
            # do not rewrite the binders themselves
            args = (t.args[0],) + tuple(_rw(a, fn, memo) for a in t.args[1:])
        else:
            args = tuple(_rw(a, fn, memo) for a in t.args)
        if args == t.args:
            r = t
        elif t.op == "sum":
            r = add(*[mul(num(c), *[pow_one2(b, e) for b, e in m]) for m, c in args[0]])
        else:
            r = rebuild(t.op, args)
    memo[t.id] = r
    return r


def pow_one2(b, e):
    return pow_(b, e)


def _rw(a, fn, memo):
    if isinstance(a, Term):
        return rewrite(a, fn, memo)
    if isinstance(a, tuple):
        return tuple(_rw(x, fn, memo) for x in a)
    return a


def subst(t, mapping):
    """mapping: Term -> Term"""
    ids = {k.id: v for k, v in mapping.items()}
    keys = set(ids)

    def fn(x):
        return ids.get(x.id)
    return rewrite(t, fn)


# reconstruct through smart constructors
_builders.update({
    "abs": abs_, "ln": ln, "cos": cos, "sin": sin, "lt0": lt0, "le0": le0,
    "eq0": lambda p: eq(p, ZERO) if not is_num(p) else boolc(numval(p) == 0),
    "eq": eq, "isnone": isnone, "isnan": isnan, "not": not_, "and": and_, "or": or_, "ite": ite,
    "max": lambda *a: mnmx("max", *a), "min": lambda *a: mnmx("min", *a),
})


# ---------------------------------------------------------------- printing
def show(t, depth=8):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return repr(t)
    if depth <= 0:
        return "..."
    op = t.op
    d = depth - 1
    if op == "num":
        return str(t.args[0])
    if op == "const":
        return repr(t.args[0])
    if op == "sym":
        return t.args[0]
    if op == "bound":
        return "i%d" % t.args[0]
    if op in ("nan", "inf", "pi", "E"):
        return op
    if op == "sum":
        parts = []
        for m, c in t.args[0]:
            fs = []
            for b, e in m:
                s = show(b, d)
                if b.op == "sum":
                    s = "(" + s + ")"
                if e is not ONE:
                    es = show(e, d)
                    s += "^" + (es if es.isalnum() else "(" + es + ")")
                fs.append(s)
            s = "*".join(fs)
            if c != 1 or not fs:
                s = (str(c) + ("*" + s if s else "")) if c != -1 or not fs else "-" + s
            parts.append(s)
        return " + ".join(parts)
    if op == "ite":
        return "if(%s ? %s : %s)" % tuple(show(a, d) for a in t.args)
    if op in ("lt0", "le0", "eq0"):
        return "(%s %s 0)" % (show(t.args[0], d), {"lt0": "<", "le0": "<=", "eq0": "=="}[op])
    if op == "getitem":
        return "%s[%s]" % (show(t.args[0], d), show(t.args[1], d))
    if op == "slice":
        return ":".join("" if a is NONE else show(a, d) for a in t.args[:2])
    if op == "attr":
        return "%s.%s" % (show(t.args[0], d), t.args[1])
    if op in ("call", "xcall"):
        return "%s(%s)" % (t.args[0].split(".")[-1], ", ".join("%s=%s" % (k, show(v, d)) for k, v in t.args[1]))
    if op in ("tuple", "list"):
        return "(" + ", ".join(show(a, d) for a in t.args[0]) + ")"
    return "%s(%s)" % (op, ", ".join(show(a, d) for a in t.args))
