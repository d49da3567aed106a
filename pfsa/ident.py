"""Randomised identity test of arithmetic normal forms (Schwartz-Zippel style).

Atoms (symbols, elements, calls, ...) are independent real unknowns.  Two expressions over the same atoms that agree at
random points satisfying the assumed guards are identical; one defined point of disagreement separates them.
"""
import hashlib
import math
from .terms import *
from .facts import Facts

INTERP = {"num", "sum", "abs", "max", "min", "ite", "lt0", "le0", "eq0", "not", "and", "or", "ln", "cos", "sin", "tan", "gamma",
          "gammainc", "gammaincinv", "round", "trunc", "floor", "ceil", "mod", "floordiv", "factor", "E", "pi", "inf", "nan", "const",
          "isnan", "isfinite", "arctan2", "sign", "full", "isinf"}


class Undef(Exception):
    pass


def gammainc(a, x):
    if a <= 0 or x < 0:
        raise Undef
    if x == 0:
        return 0.0
    if math.isinf(x):
        return 1.0
    if x < a + 1:
        s = t = 1.0 / a
        n = a
        for _ in range(2000):
            n += 1
            t *= x / n
            s += t
            if abs(t) < abs(s) * 1e-17:
                break
        return s * math.exp(-x + a * math.log(x) - math.lgamma(a))
    tiny = 1e-300
    b = x + 1 - a
    c = 1 / tiny
    d = 1 / b
    h = d
    for i in range(1, 2000):
        an = -i * (i - a)
        b += 2
        d = an * d + b
        d = tiny if abs(d) < tiny else d
        c = b + an / c
        c = tiny if abs(c) < tiny else c
        d = 1 / d
        de = d * c
        h *= de
        if abs(de - 1) < 1e-16:
            break
    return 1 - math.exp(-x + a * math.log(x) - math.lgamma(a)) * h


def gammaincinv(a, p):
    if not 0 <= p < 1 or a <= 0:
        raise Undef
    lo, hi = 0.0, 1.0
    while gammainc(a, hi) < p:
        hi *= 2
        if hi > 1e6:
            raise Undef
    for _ in range(200):
        m = (lo + hi) / 2
        if gammainc(a, m) < p:
            lo = m
        else:
            hi = m
    return (lo + hi) / 2


class Point:
    """one random interpretation: every opaque operation is a random function of its operands' values"""

    def __init__(self, seed, style, preset=None):
        self.seed, self.style = seed, style
        self.memo = {}
        self.preset = preset or {}
        self.nans = frozenset()       # unknowns that may be NaN under this interpretation

    def tok(self, a):
        if isinstance(a, Term):
            v = self.ev(a)
            if isinstance(v, float):
                return "%.9g" % v
            return str(v)
        if isinstance(a, tuple):
            return "(" + ",".join(self.tok(x) for x in a) + ")"
        return repr(a)

    def atom(self, t):
        if t.op == "sym":
            key = "sym:%s" % t.args[0]
        elif t.op == "bound":
            key = "bound:%s" % t.args[0]
        elif t.op == "getitem" and t.args[1].op == "sym" and t.args[1].args[0] == "elem#":
            return self.ev(t.args[0])     # the generic element
        else:
            key = t.op + ":" + ",".join(self.tok(a) for a in t.args)
        h = hashlib.blake2b(("%d|%s" % (self.seed, key)).encode(), digest_size=16).digest()
        u = int.from_bytes(h[:7], "big") / 2.0 ** 56
        w = h[8]
        k = kind(t)
        if k == "bool" or t.op in ("truth", "allclose", "hasattr", "callable", "contains", "isnone", "isinst", "eq", "any", "all", "exists", "forall") or (k == "arr" and t.op == "sym" and t.args[1] == "barr"):
            return u < 0.5
        if k in ("str", "none", "obj") or t.op in ("tuple", "list", "dict", "inst", "exc", "slice", "const", "str", "fmt"):
            return "#" + h[:8].hex()
        if k == "int":
            return 1 + int(u * 12)
        if t.id in self.nans and w < 100:
            return "nan"
        v = 0.15 + 2.5 * u if self.style != 2 else math.exp(3 * (u - 0.5))
        if self.style == 1 and not nonneg(t) and w < 128:
            v = -v
        return v

    def ev(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.preset.get(t.id)
            if r is None:
                r = self.ev_(t)
            if isinstance(r, float) and (math.isnan(r) or abs(r) > 1e200):
                raise Undef
            self.memo[t.id] = r
        return r

    def ev_(self, t):
        op = t.op
        if op == "num":
            return float(t.args[0]) if t.args[0].denominator != 1 else int(t.args[0])
        if op == "sum":
            s, infs = [], set()
            for m, c in t.args[0]:
                p = float(c)
                for b, e in m:
                    bv, ev = self.ev(b), self.ev(e)
                    if isinstance(bv, str) or isinstance(ev, str):
                        if bv == "nan" or ev == "nan":
                            return "nan"
                        if bv in ("inf", "-inf") and ev == 1 and len(m) == 1:
                            infs.add(bv if c > 0 else {"inf": "-inf", "-inf": "inf"}[bv])
                            continue
                        raise Undef
                    p *= self.pw(bv, ev)
                s.append(p)
            if infs:
                return infs.pop() if len(infs) == 1 else "nan"
            mx = max(abs(x) for x in s)
            tot = math.fsum(s)
            self.scale = max(getattr(self, "scale", 0), 0)
            if len(s) > 1 and mx > 0 and abs(tot) < 1e-9 * mx:
                return 0.0 if abs(tot) < 1e-13 * mx else self.cancel()
            return tot
        if op == "E":
            return math.e
        if op == "pi":
            return math.pi
        if op in ("inf", "nan"):
            return op
        if op == "const":
            v = t.args[0]
            if isinstance(v, bool):
                return v
            return self.atom(t)
        if op not in INTERP:
            return self.atom(t)
        if op == "full":
            return self.ev(t.args[1])
        if op == "ite":
            c = self.ev(t.args[0])
            if not isinstance(c, bool):
                c = hashlib.blake2b(("%d|%s" % (self.seed, c)).encode()).digest()[0] < 128
            return self.ev(t.args[1]) if c else self.ev(t.args[2])
        if op == "and":
            return all(self.ev(a) for a in t.args)
        if op == "or":
            return any(self.ev(a) for a in t.args)
        if op == "not":
            return not self.ev(t.args[0])
        if op in ("isnan", "isinf", "isfinite"):
            v = self.ev(t.args[0])
            if isinstance(v, str):
                if v not in ("nan", "inf"):
                    raise Undef
                return (op == "isnan") == (v == "nan") if op != "isfinite" else False
            x = t.args[0]
            if op == "isfinite":
                return True
            return False
        a = [self.ev(x) for x in t.args if isinstance(x, Term)]
        if any(isinstance(x, str) for x in a):
            if "nan" in a and op not in ("lt0", "le0", "eq0", "max", "min", "mod"):
                return "nan"
            if op == "eq0" and a[0] == "inf":
                return False
            raise Undef
        try:
            if op == "abs":
                return abs(a[0])
            if op == "max":
                return max(a)
            if op == "min":
                return min(a)
            if op == "lt0":
                return a[0] < 0
            if op == "le0":
                return a[0] <= 0
            if op == "eq0":
                return a[0] == 0
            if op == "ln":
                return "-inf" if a[0] == 0 else math.log(a[0])
            if op in ("cos", "sin", "tan", "gamma", "floor", "ceil", "trunc"):
                return getattr(math, op)(a[0])
            if op == "arctan2":
                return math.atan2(a[0], a[1])
            if op == "sign":
                return (a[0] > 0) - (a[0] < 0)
            if op == "gammainc":
                return gammainc(*a)
            if op == "gammaincinv":
                return gammaincinv(*a)
            if op == "round":
                return round(a[0], int(a[1])) if a[1] else round(a[0])
            if op == "mod":
                return a[0] % a[1]
            if op == "floordiv":
                return a[0] // a[1]
            if op == "factor":
                return a[0]
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            raise Undef
        return self.atom(t)

    def cancel(self):
        raise Undef

    @staticmethod
    def pw(b, e):
        if e == 1:
            return b
        try:
            if isinstance(b, bool):
                b = int(b)
            if b == 0 and e <= 0:
                raise Undef
            if b < 0 and e != int(e):
                raise Undef
            if abs(e) > 60:
                raise Undef
            return float(b) ** e
        except (OverflowError, ZeroDivisionError, TypeError):
            raise Undef


def same(x, y):
    if isinstance(x, str) or isinstance(y, str):
        return x == y
    if isinstance(x, bool) or isinstance(y, bool):
        return bool(x) == bool(y)
    return abs(x - y) <= 1e-6 * max(abs(x), abs(y), 1e-6)


def identity(a, b, facts, tries=60, need=6, nans=False):
    """True: identical; False: different; None: not decided

    nans: unknowns whose NaN-ness the terms ask about may be NaN"""
    nan_ = frozenset(s.args[0].id for x in (a, b) for s in subterms(x) if s.op == "isnan") if nans else frozenset()
    ok = 0
    lits = list(facts.lits) if facts is not None else []
    preset = {}
    for l in lits:
        n = l.op == "not"
        x = l.args[0] if n else l
        if x.op not in INTERP:
            preset[x.id] = not n
            preset[not_(x).id] = n
    if facts is not None:
        for qid, bd in facts.bounds.items():
            if bd[0] is not None and bd[0] == bd[2] and not bd[1] and not bd[3]:
                preset[qid] = float(bd[0]) if bd[0] else 0.0
    for i in range(tries):
        p = Point(i, i % 3, preset)
        if i % 2:
            p.nans = nan_
        try:
            for l in lits:
                if l.op in ("lt0", "le0") and not p.ev(l):
                    raise Undef
            x, y = p.ev(a), p.ev(b)
        except Undef:
            continue
        except (TypeError, RecursionError):
            return None
        if not same(x, y):
            return False
        ok += 1
        if ok >= need * 2:
            return True
    return True if ok >= need else None


def relaxed(t):
    """roundings left out: a guide to values that meet a condition, which are then tested on the condition itself"""
    return rewrite(t, lambda x: relaxed(x.args[0]) if x.op in ("trunc", "floor", "ceil", "round") else None)


def separable(a, b, lits, tries=40):
    """an interpretation that meets the conditions and tells both sides apart was found (values chosen for true unknowns only)"""
    import random
    lin, base = [], {}
    for l in lits:
        n = l.op == "not"
        x = l.args[0] if n else l
        if x.op not in INTERP:
            base[x.id] = not n
            base[not_(x).id] = n
        if x.op in ("lt0", "le0") and kind(x) != "arr":
            p = as_poly(relaxed(x.args[0]))
            if all(len(m) <= 1 and all(e is ONE and v.op not in INTERP and kind(v) not in ("str", "obj", "none", "arr") for v, e in m) for m in p):
                s = -1 if n else 1
                lin.append((s * float(p.get((), 0)), [(m[0][0], s * float(c)) for m, c in p.items() if m]))
    if not lin:
        return False
    vs = {v.id: v for c0, cs in lin for v, c in cs}
    rnd = random.Random(11)
    for i in range(tries):
        val = {k: (float(rnd.randint(1, 12)) if kind(v) == "int" else rnd.uniform(0.2, 6.0)) for k, v in vs.items()}
        for _ in range(60):
            good = True
            for c0, cs in lin:
                x = c0 + sum(c * val[v.id] for v, c in cs)
                if x >= 0:
                    good = False
                    w = sum(c * c for v, c in cs)
                    if not w:
                        break
                    want = -rnd.uniform(0.5, 3.0) * max(abs(c) for v, c in cs)
                    for v, c in cs:
                        val[v.id] += (want - x) * c / w
                        if kind(v) == "int":
                            val[v.id] = float(math.floor(val[v.id] + rnd.random()))
            if good:
                break
        p = Point(900 + i, i % 3, dict(base))
        p.preset.update({k: (int(v) if kind(vs[k]) == "int" else v) for k, v in val.items() if not (nonneg(vs[k]) and v < 0)})
        try:
            if not all(p.ev(l) for l in lits):
                continue
            x, y = p.ev(a), p.ev(b)
        except Undef:
            continue
        except (TypeError, RecursionError):
            return False
        if not same(x, y):
            return True
    return False


def separated(a, b, lits, facts=None, tries=40):
    """an interpretation satisfying the case conditions in which both sides differ was found

    The linear conditions are met by projection onto violated half-spaces, starting from random values of the unknowns."""
    import random
    lin, rest = [], []
    for l in lits:
        n = l.op == "not"
        x = l.args[0] if n else l
        if x.op in ("lt0", "le0", "eq0") and not (n and x.op == "eq0"):
            p = as_poly(x.args[0])
            if all(len(m) <= 1 and all(e is ONE and kind(v) not in ("str", "obj", "none") for v, e in m) for m in p):
                c0 = float(p.get((), 0))
                cs = [(m[0][0], float(c)) for m, c in p.items() if m]
                if n:
                    c0, cs = -c0, [(v, -c) for v, c in cs]
                lin.append((x.op, c0, cs))
                continue
        rest.append(l)
    if not lin:
        return False
    vs = {v.id: v for op, c0, cs in lin for v, c in cs}
    ext = {}
    for v in list(vs.values()):
        if v.op in ("amin", "amax"):
            ext.setdefault(v.args[0].id, {})[v.op] = v
    for d in ext.values():
        if len(d) == 2:
            lin.append(("le0", 0.0, [(d["amin"], 1.0), (d["amax"], -1.0)]))
    for v in vs.values():
        if nonneg(v):
            lin.append(("le0", 0.0, [(v, -1.0)]))
    base = {}
    for l in rest:
        n = l.op == "not"
        x = l.args[0] if n else l
        if x.op not in INTERP:
            base[x.id] = not n
            base[not_(x).id] = n
    rnd = random.Random(7)
    for i in range(tries):
        val = {k: (float(rnd.randint(1, 12)) if kind(v) == "int" else rnd.uniform(0.2, 6.0)) for k, v in vs.items()}
        good = False
        for _ in range(200):
            good = True
            for op, c0, cs in lin:
                x = c0 + sum(c * val[v.id] for v, c in cs)
                if op == "eq0":
                    bad = abs(x) > 1e-9
                    want = 0.0
                else:
                    bad = x >= 0 if op == "lt0" else x > 0
                    want = -rnd.uniform(0.1, 1.5)
                if bad:
                    good = False
                    w = sum(c * c for v, c in cs)
                    if not w:
                        break
                    for v, c in cs:
                        val[v.id] += (want - x) * c / w
                        if kind(v) == "int":
                            val[v.id] = float(math.floor(val[v.id] + rnd.random()))
            if good:
                break
        if not good:
            continue
        p = Point(500 + i, i % 3, dict(base))
        p.preset.update(val)
        try:
            if not all(p.ev(l) for l in lits):
                continue
            x, y = p.ev(a), p.ev(b)
        except Undef:
            continue
        except (TypeError, RecursionError):
            return False
        if not same(x, y):
            return True
    return False


def fingerprint(t, n=5):
    """values at n random interpretations (None where undefined)"""
    r = t._memo.get("fp")
    if r is None:
        r = []
        for i in range(n):
            p = _POINTS[i]
            try:
                v = p.ev(t)
                r.append("%.9g" % v if isinstance(v, float) else str(v))
            except Undef:
                r.append(None)
            except (TypeError, RecursionError):
                r.append(None)
        r = tuple(r)
        t._memo["fp"] = r
    return r


_POINTS = [Point(1000 + i, (0, 2, 0, 2, 1, 1)[i]) for i in range(6)]


GATES = {"lt0", "le0", "eq0", "eq", "isnan", "isnone", "isinst", "truth", "any", "all", "exists", "forall", "isfinite", "not"}


def guards(t):
    """the elementary conditions in a term, up to negation"""
    r = t._memo.get("guards")
    if r is None:
        r = set()
        for s in subterms(t):
            if s.op in GATES and s.op != "not":
                r.add(min(s.id, not_(s).id) if s.op in ("lt0", "le0", "any", "all") else s.id)
        r = frozenset(r)
        t._memo["guards"] = r
    return r


def confirmed(x, y):
    """the same value also at further points; guarded terms must have the same guards"""
    gx = guards(x)
    if gx != guards(y) or len(gx) > 10:
        return False
    return identity(x, y, None, tries=60 if not gx else 150, need=12 if not gx else 30) is True


def unify(a, b):
    """rewrite b so that arithmetic subterms identical to subterms of a become those"""
    sa = subterms(a)
    ia = {x.id for x in sa}
    table = {}
    for x in sa:
        if x.op in ("sum", "ite", "abs", "ln", "max", "min", "lt0", "le0", "concat", "and", "or", "argmin", "argmax", "interp"):
            f = fingerprint(x)
            if sum(v is not None for v in f) >= 3 and not all(v in ("True", "False", "nan", None) for v in f):
                table.setdefault(f, x)
    if not table:
        return b
    def fn(x):
        if x.id in ia:
            return x
        if x.op in ("sum", "ite", "abs", "ln", "max", "min", "concat", "argmin", "argmax", "interp"):
            f = fingerprint(x)
            y = table.get(f)
            if y is not None and kind(y) == kind(x) and y.op not in ("lt0", "le0", "and", "or") and confirmed(x, y):
                return y
        return None
    return rewrite(b, fn)
