"""Consistency of guards: which guards follow from, or contradict, the guards already assumed."""
from .terms import *
from fractions import Fraction
from .terms import _signnorm, _cmpnorm

_EXCL = {"list", "tuple", "numpy.ndarray", "int", "float", "str", "dict", "set", "bool"}


def _split(p):
    """p = q + c with q free of a constant term"""
    d = dict(as_poly(p))
    c = d.pop((), 0)
    return from_poly(d), c


def _parts(p):
    """what a sum cannot be a number without: its monomials and their factors (NaN propagates)"""
    out = set()
    for m in as_poly(p):
        if m:
            out.add(m)
            for a, e in m:
                if isinstance(e, (int, Fraction)) and e > 0:
                    out.add(((a, 1),))
    return out


def _whole(p):
    """the one monomial p consists of"""
    ms = [m for m in as_poly(p)]
    return ms[0] if len(ms) == 1 and ms[0] else None


class Facts:
    def __init__(self, lits=()):
        self.lits = set()
        self.number = set()  # monomials known not to be NaN
        self.nan = set()     # monomials known to be NaN
        self.bounds = {}     # q.id -> [lo, lo_strict, hi, hi_strict, {excluded values}]
        self.consts = {}     # term id -> const
        self.noteq = {}
        self.inst = {}       # term id -> class (exclusive family)
        self.none = {}       # term id -> bool
        self.bad = False
        for l in lits:
            self.add(l)

    def copy(self):
        f = Facts()
        f.lits, f.number, f.nan = set(self.lits), set(self.number), set(self.nan)
        f.bounds = {k: [v[0], v[1], v[2], v[3], set(v[4])] for k, v in self.bounds.items()}
        f.consts, f.noteq = dict(self.consts), {k: set(v) for k, v in self.noteq.items()}
        f.inst, f.none, f.bad = dict(self.inst), dict(self.none), self.bad
        return f

    def add(self, l):
        if l is TRUE:
            return
        if l is FALSE:
            self.bad = True
            return
        if l.op == "and":
            for a in l.args:
                self.add(a)
            return
        v = self.query(l)
        if v is False:
            self.bad = True
        self.lits.add(l)
        neg_ = l.op == "not"
        a = l.args[0] if neg_ else l
        if a.op == "isnan":
            w = _whole(a.args[0])
            if w is not None:
                (self.number if neg_ else self.nan).add(w)
        elif a.op in ("lt0", "le0", "eq0") and not neg_ and kind(a) != "arr":
            self.number |= _parts(a.args[0])
        if a.op in ("lt0", "le0"):
            self._bound(a, True)
        elif a.op == "eq0":
            q, c = _split(a.args[0])
            s, q = _signnorm(q)
            b = self.bounds.setdefault(q.id, [None, False, None, False, set()])
            val = -c * s
            if neg_:
                b[4].add(val)
            else:
                self._upd(b, val, False, True)
                self._upd(b, val, False, False)
        elif a.op == "eq":
            x, y = a.args
            for u, w in ((x, y), (y, x)):
                if w.op in ("const", "num", "ext"):
                    if neg_:
                        self.noteq.setdefault(u.id, set()).add(w.args[0])
                    else:
                        self.consts[u.id] = w.args[0]
        elif a.op == "isinst" and not neg_:
            if a.args[1] in _EXCL:
                self.inst[a.args[0].id] = a.args[1]
            self.none[a.args[0].id] = False
        elif a.op == "isnone":
            self.none[a.args[0].id] = not neg_

    def _bound(self, a, val):
        q, c = _split(a.args[0])
        s, q = _signnorm(q)
        b = self.bounds.setdefault(q.id, [None, False, None, False, set()])
        strict = a.op == "lt0"
        # s*q + c < 0
        if s > 0:
            self._upd(b, -c, strict, False)
        else:
            self._upd(b, c, strict, True)

    @staticmethod
    def _upd(b, v, strict, lower):
        if lower:
            if b[0] is None or v > b[0] or (v == b[0] and strict):
                b[0], b[1] = v, strict
        else:
            if b[2] is None or v < b[2] or (v == b[2] and strict):
                b[2], b[3] = v, strict

    def range_of(self, a):
        l = h = None
        for x in self.lits:
            if x.op in ("lt0", "le0"):
                p = as_poly(x.args[0])
                k = p.get(((a, ONE),))
                if k is not None and len(p) <= 2 and all(m == () or m == ((a, ONE),) for m in p):
                    v = -p.get((), 0) / k
                    if k > 0:
                        h = v if h is None else min(h, v)
                    else:
                        l = v if l is None else max(l, v)
        return l, h

    def interval(self, t, depth=0):
        """(lower, upper) of a number, from the assumed bounds and the roundings in between (None: unknown)"""
        if depth > 6:
            return None, None
        lo = hi = Fraction(0)
        for m, c in as_poly(t).items():
            if not m:
                lo = None if lo is None else lo + c
                hi = None if hi is None else hi + c
                continue
            if len(m) != 1 or m[0][1] is not ONE:
                return None, None
            a = m[0][0]
            l, h = self.range_of(a)
            if a.op in ("trunc", "floor", "ceil", "round") and (l is None or h is None) and (a.op != "round" or len(a.args) == 1 or a.args[1] is ZERO):
                il, ih = self.interval(a.args[0], depth + 1)
                if l is None and il is not None:
                    l = il - 1
                if h is None and ih is not None:
                    h = ih + 1
            if l is None and (nonneg(a) or positive(a)):
                l = Fraction(0)
            if c < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
            if lo is None and hi is None:
                break
        return lo, hi

    def query(self, c):
        """True / False / None"""
        r = self.query_(c)
        if r is None and c.op in ("lt0", "le0") and self.bounds and kind(c) != "arr" and \
                any(s.op in ("trunc", "floor", "ceil", "round") for m in as_poly(c.args[0]) for s, e in m):
            lo, hi = self.interval(c.args[0])
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo > 0:
                return False
        return r

    def query_(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in self.lits:
            return True
        n = not_(c)
        if n in self.lits:
            return False
        if c.op == "not":
            r = self.query(c.args[0])
            return None if r is None else not r
        if c.op == "and":
            rs = [self.query(a) for a in c.args]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if c.op == "or":
            rs = [self.query(a) for a in c.args]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if c.op == "isnan" and self.number and kind(c) != "arr":
            return False if _whole(c.args[0]) in self.number else None
        if c.op in ("lt0", "le0", "eq0") and self.nan and kind(c) != "arr" and self.nan & _parts(c.args[0]):
            return False
        if c.op in ("lt0", "le0"):
            q, k = _split(c.args[0])
            s, q = _signnorm(q)
            b = self.bounds.get(q.id)
            if b is None:
                return None
            lo, los, hi, his = b[:4]
            strict = c.op == "lt0"
            if s < 0:
                lo, los, hi, his = (None if hi is None else -hi), his, (None if lo is None else -lo), los
            # q' + k < 0
            if hi is not None:
                v = hi + k
                if v < 0 or (v == 0 and (his or not strict)):
                    return True
            if lo is not None:
                v = lo + k
                if v > 0 or (v == 0 and (los or strict)):
                    return False
            return None
        if c.op == "eq0":
            q, k = _split(c.args[0])
            s, q = _signnorm(q)
            b = self.bounds.get(q.id)
            if b is None:
                return None
            v = -k * s
            if v in b[4]:
                return False
            if b[0] is not None and (v < b[0] or (v == b[0] and b[1])):
                return False
            if b[2] is not None and (v > b[2] or (v == b[2] and b[3])):
                return False
            if b[0] is not None and b[0] == b[2] == v and not b[1] and not b[3]:
                return True
            return None
        if c.op == "eq":
            x, y = c.args
            for u, w in ((x, y), (y, x)):
                if w.op in ("const", "num", "ext"):
                    if u.id in self.consts:
                        return self.consts[u.id] == w.args[0]
                    if w.args[0] in self.noteq.get(u.id, ()):
                        return False
            return None
        if c.op == "isinst":
            k = self.inst.get(c.args[0].id)
            if k is not None and c.args[1] in _EXCL:
                return k == c.args[1]
            if self.none.get(c.args[0].id):
                return False
            return None
        if c.op == "isnone":
            r = self.none.get(c.args[0].id)
            if r is not None:
                return r
            return None
        return None

    def consistent(self):
        if self.bad:
            return False
        for b in self.bounds.values():
            if b[0] is not None and b[2] is not None:
                if b[0] > b[2] or (b[0] == b[2] and (b[1] or b[3] or b[0] in b[4])):
                    return False
        return True


def simplify(t, facts):
    """Replace guards decided by the facts."""
    def fn(x):
        if x.op in ("lt0", "le0", "eq0", "eq", "isnone", "isinst", "isnan", "raised", "any", "all", "exists",
                    "contains", "sym", "not", "and", "or", "attr", "getitem", "mcall", "call", "isfinite", "truth", "allclose", "hasattr", "callable", "xcall"):
            r = facts.query(x)
            if r is not None:
                return boolc(r)
        return None
    return rewrite(t, fn)
