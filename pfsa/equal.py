"""Deciding whether two terms (or outcomes) denote the same value: guard expansion over normal forms.

The answer is 'eq', 'diff' or 'unknown'.  'eq' means the normal forms coincide on every consistent guard assignment.
'diff' is only given when the differing part of both sides lies in the vocabulary whose normal forms are canonical;
anything else is 'unknown'.
"""
import math
from .terms import *
from . import terms as T
from . import arrays as A
from .facts import Facts, simplify, _split as facts_split
from .terms import _signnorm
from . import clock, ident, linear

BASE = {"num", "const", "sum", "sym", "E", "pi", "nan", "inf", "ln", "cos", "sin", "tan", "abs", "max", "min", "ite", "lt0", "le0",
        "eq0", "eq", "not", "and", "or", "isnan", "isnone", "isinst", "tuple", "list", "vec", "gamma", "gammainc", "gammaincinv", "round",
        "floor", "ceil", "trunc", "amin", "amax", "asum", "argmin", "argmax", "any", "all", "len", "shape", "size", "arctan2",
        "slice", "str", "mod", "floordiv", "exc", "dim", "dict", "full", "sign"}
OPAQUE = {"xcall", "opaque", "phi", "fold", "undef", "acc", "uninit", "raised", "caught", "opaque_guard", "lambda", "func", "star",
          "strm", "xmut", "cyclic", "last", "op", "deco", "partial", "factor", "storeprefix"}
MAXLEAVES = 600


def tokens(t):
    """restructuring vocabulary of a term"""
    r = t._memo.get("tok")
    if r is None:
        r = set()
        for s in subterms(t):
            if s.op == "isinst":
                r.add("isinst:" + str(s.args[1]))
                continue
            if s.op in BASE or s.op == "E":
                continue
            if s.op in ("call", "xcall") and len(s.args) > 1 and isinstance(s.args[1], tuple) and any(k in ("**", "star") for k, _ in s.args[1]):
                r.add("**")
            if s.op in ("call", "xcall", "mcall"):
                r.add(s.op + ":" + str(s.args[0]))
            elif s.op == "apply":
                r.add("apply:" + (s.args[0] if isinstance(s.args[0], str) else "?"))
            elif s.op in ("ext", "cls", "extconst"):
                r.add(s.op + ":" + str(s.args[0]))
            elif s.op == "attr":
                r.add("attr:" + str(s.args[1]))
            elif s.op == "getitem":
                i = s.args[1]
                r.add("getitem" + ("-slice" if i.op == "slice" else "-mask" if kind(i) == "arr" else ""))
            elif s.op == "bound":
                pass
            else:
                r.add(s.op)
        r = frozenset(r)
        t._memo["tok"] = r
    return r


class Res:
    def __init__(self, status, a=None, b=None, facts=(), why=""):
        self.status, self.a, self.b, self.facts, self.why = status, a, b, tuple(facts), why

    def __bool__(self):
        return self.status == "eq"

    def __repr__(self):
        return self.status


EQ = Res("eq")


def _norm(t):
    """sequence kinds are compared alike"""
    return t


def scalar_gates(t, limit=4000):
    """conditions (atoms) of the ites and boolean structure reachable in t, outside binders"""
    out, seen, st, n = [], set(), [t], 0
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        n += 1
        if n > limit:
            break
        if x.op == "ite" and kind(x.args[0]) != "arr":
            for a in atoms(x.args[0]):
                if not bounds(a):
                    out.append(a)
        if x.op in ("max", "min", "abs") and False:
            pass
        st.extend(children(x))
    return out


def atoms(c):
    if c.op in ("and", "or", "not", "ite"):
        r = []
        for a in c.args:
            r.extend(atoms(a))
        return r
    if c.op == "const":
        return []
    return [c]


def solve_eq(a):
    """atom eq0(p): p linear in one atom -> substitution"""
    if a.op == "eq0":
        d = as_poly(a.args[0])
        for ops in (("len", "sym", "getitem", "count", "dim", "size"), ("amin", "amax", "asum", "max", "min", "trunc", "round", "floor", "ceil", "attr")):
          for m, c in d.items():
            if len(m) == 1 and m[0][1] is ONE and m[0][0].op in ops and kind(m[0][0]) != "arr":
                v = m[0][0]
                rest = from_poly({k: -x / c for k, x in d.items() if k != m})
                if v not in subterms(rest) and all(v not in subterms(b) for k in d if k != m for b, e in k):
                    return {v: rest}
    if a.op == "eq":
        x, y = a.args
        if x.op in ("const",) and y.op in ("sym", "attr", "getitem"):
            return {y: x}
        if y.op in ("const",) and x.op in ("sym", "attr", "getitem"):
            return {x: y}
    return None


def _without(f, l):
    f = f.copy()
    f.lits.discard(l)
    return f


def _possible(facts):
    """re-simplify every assumed guard under the other ones (guards assumed early may contain guards decided later)"""
    lits = sorted(facts.lits, key=lambda l: l.id)
    for _ in range(3):
        changed = False
        for i, l in enumerate(lits):
            l2 = simplify(l, Facts(lits[:i] + lits[i + 1:]))
            if l2 is FALSE:
                return False
            if l2 is not l:
                lits[i] = l2
                changed = True
        if not Facts(lits).consistent():
            return False
        if not changed:
            break
    return True


def pinned(g, f):
    """both bounds of the compared quantity meet: it is a constant"""
    if g.op not in ("lt0", "le0"):
        return None
    q, c = facts_split(g.args[0])
    sgn, q = _signnorm(q)
    b = f.bounds.get(q.id)
    if not b:
        return None
    lo, los, hi, his = b[:4]
    if lo is None and hi is not None:
        los = positive(q) and not isint(q)
        lo = 1 if positive(q) and isint(q) else 0 if nonneg(q) else None
    if isint(q):
        if lo is not None:
            lo = math.floor(lo) + 1 if los else math.ceil(lo)
        if hi is not None:
            hi = math.ceil(hi) - 1 if his else math.floor(hi)
        los = his = False
    if lo is not None and lo == hi and not los and not his:
        return solve_eq(eq(q, num(lo)))
    return None


def multiple(s, x, m):
    q = div(x, m)
    for op in ("trunc", "floor", "ceil"):
        s[mk(op, q)] = q
    s[mk("floordiv", x, m)] = q


def whole(facts):
    """under x % 1 == 0 every rounding of x is x"""
    s = {}
    for l in facts.lits:
        if l.op == "eq0" and l.args[0].op == "mod" and l.args[0].args[1] is ONE:
            x = l.args[0].args[0]
            for op in ("trunc", "floor", "ceil", "round"):
                s[mk(op, x)] = x
            s[mk("floordiv", x, ONE)] = x
        elif l.op == "eq0" and l.args[0].op == "mod" and is_num(l.args[0].args[1]) and numval(l.args[0].args[1]) > 1:
            multiple(s, l.args[0].args[0], l.args[0].args[1])
        elif l.op == "not" and l.args[0].op == "eq0" and l.args[0].args[0].op == "mod" and l.args[0].args[0].args[1] is num(2) and kind(l.args[0].args[0].args[0]) == "int":
            # odd: both neighbours are even
            multiple(s, add(l.args[0].args[0].args[0], ONE), num(2))
            multiple(s, sub(l.args[0].args[0].args[0], ONE), num(2))
        elif l.op == "eq":
            s.update(solve_eq(l) or {})
    return s


class Cmp:
    def __init__(self, facts=None, vocab=frozenset(), distinct=frozenset()):
        self.facts = facts or Facts()
        self.vocab = vocab           # restructuring vocabulary the reference itself uses
        self.distinct = distinct     # extra tokens known to be canonical
        self.leaves = 0
        self.memo = {}
        self.end = clock.limit()

    # ------------------------------------------------------------- driver
    def go(self, a, b, facts, path=()):
        if a is b:
            return EQ
        w = whole(facts)
        if w:
            a, b = subst(a, w), subst(b, w)
        a, b = simplify(a, facts), simplify(b, facts)
        if a is b:
            return EQ
        key = (a.id, b.id, frozenset(l.id for l in facts.lits))
        r = self.memo.get(key)
        if r is None:
            n = len(path)
            r = self.go_(a, b, facts, path)
            self.memo[key] = r if r.status == "eq" else Res(r.status, r.a, r.b, r.facts[n:], r.why)
            return r
        return r if r.status == "eq" else Res(r.status, r.a, r.b, tuple(path) + r.facts, r.why)

    def go_(self, a, b, facts, path):
        self.leaves += 1
        if self.leaves > MAXLEAVES:
            return Res("unknown", a, b, path, "too many cases")
        if clock.past(self.end):
            return Res("unknown", a, b, path, "out of time")
        g = None
        if a.op == "ite" or b.op == "ite":
            g = self.pick(a, b, facts)
        if g is None:
            r = self.leaf(a, b, facts, path)
            if r.status == "eq":
                return r
            # expand on a gate
            g = self.pick(a, b, facts)
            if g is not None and r.status == "diff" and len(r.facts) > len(path):
                # parts differ in one case: look at the whole in that case first
                g = next((l for l in r.facts[len(path):] if kind(l) != "arr" and not bounds(l) and facts.query(l) is None), g)
        if g is None:
            g = self.assumed(a, b, facts)
        if g is None:
            return EQ if r.status != "eq" and (not _possible(facts) or linear.infeasible(facts.lits)) else r
        worst = EQ
        for val in (True, False):
            lit = g if val else not_(g)
            f = facts.copy()
            f.add(lit)
            if not f.consistent():
                continue
            for l in list(f.lits):
                if l.op == "or":
                    l2 = simplify(self.assume(l, g, val), _without(f, l))
                    if l2 is not l:
                        f.lits.discard(l)
                        f.add(l2)
            if not f.consistent():
                continue
            x, y = a, b
            x, y = self.assume(x, g, val), self.assume(y, g, val)
            if val or g.op in ("lt0", "le0"):
                s = solve_eq(g) if g.op in ("eq0", "eq") else pinned(g, f)
                if s:
                    x, y = subst(x, s), subst(y, s)
                    f2 = Facts()
                    for l in list(f.lits):
                        f2.add(subst(l, s) if l is not g else l)
                    for k in s:
                        f2.lits.add(g)
                    f = f2
                    if not f.consistent():
                        continue
            r = self.go(x, y, f, path + (lit,))
            if r.status == "unknown":
                if worst.status == "eq":
                    worst = r
            elif r.status == "diff":
                return r
        return worst

    def extreme(self, a, b):
        """a minimum or maximum of two numbers that occurs on one side only"""
        sa, sb = set(subterms(a)), set(subterms(b))
        c = [x for x in sa ^ sb if x.op in ("min", "max") and len(x.args) == 2 and all(kind(y) in ("int", "scalar") for y in x.args)]
        return min(c, key=lambda x: x.id) if c else None

    def split_extreme(self, m, a, b, facts, path):
        x, y = m.args
        worst = EQ
        for lit, v in ((le(x, y), x), (le(y, x), y)):
            if m.op == "max":
                v = y if v is x else x
            if lit is FALSE or facts.query(lit) is False:
                continue
            f = facts.copy()
            f.add(lit)
            if not f.consistent():
                continue
            r = self.go(subst(a, {m: v}), subst(b, {m: v}), f, path + (lit,))
            if r.status == "diff":
                return r
            if r.status == "unknown":
                worst = r
        return worst

    def assumed(self, a, b, facts):
        """one of several alternatives is assumed, each fixing a value compared here: look at them one by one"""
        st = None
        for l in sorted(facts.lits, key=lambda l: l.id):
            if l.op != "or":
                continue
            for g in l.args:
                s = solve_eq(g) if g.op == "eq" else None
                if s and facts.query(g) is None:
                    st = st if st is not None else set(subterms(a)) | set(subterms(b))
                    if any(k in st for k in s):
                        return g
        return None

    def assume(self, t, g, val):
        c = boolc(val)
        ng = not_(g)
        nc = boolc(not val)
        return rewrite(t, lambda x: c if x is g else nc if x is ng else None)

    def pick(self, a, b, facts):
        ga, gb = scalar_gates(a), scalar_gates(b)
        if _isb(a) and _isb(b) and kind(a) != "arr" and kind(b) != "arr":
            ga, gb = atoms(a) + ga, atoms(b) + gb
        cands = {}
        for g in ga + gb:
            if kind(g) == "arr":
                continue
            cands[g.id] = cands.get(g.id, 0) + 1
        best = None
        for g in ga + gb:
            if g.id not in cands or facts.query(g) is not None:
                continue
            if g.op == "eq0":
                sc = 2
            else:
                sc = 1
            sc = (sc, cands[g.id], -g.id)
            if best is None or sc > best[0]:
                best = (sc, g)
        g = best[1] if best else None
        for _ in range(12):
            # a guard that itself contains undecided guards keeps no canonical form: decide the inner ones first
            inner = [x for x in scalar_gates(g) if kind(x) != "arr" and x is not g and facts.query(x) is None] if g is not None else []
            if not inner:
                break
            g = inner[0]
        return g

    # ------------------------------------------------------------- leaves
    def leaf(self, a, b, facts, path):
        if a is b:
            return EQ
        if a.op in ("list", "tuple", "vec") and b.op in ("list", "tuple", "vec") and len(a.args[0]) == len(b.args[0]):
            return self.all(list(zip(a.args[0], b.args[0])), facts, path, a, b)
        if a.op == "asarr" and b.op != "asarr":
            return self.leaf(a.args[0], b, facts, path)
        if b.op == "asarr" and a.op != "asarr":
            return self.leaf(a, b.args[0], facts, path)
        if a.op == "dict" and b.op == "dict":
            da, db = {k: v for k, v in a.args[0]}, {k: v for k, v in b.args[0]}
            if set(da) == set(db):
                return self.all([(da[k], db[k]) for k in da], facts, path, a, b)
        if _numlike(a) and _numlike(b) and "sum" in (a.op, b.op):
            return self.poly(a, b, facts, path)
        if (a.op == "ite" or b.op == "ite") and _arrlike(a) and _arrlike(b):
            r = self.elementwise(a, b, facts, path)
            if r is not None:
                return r
        if a.op == b.op and a.op != "sum":
            ch = self.align(a.args, b.args)
            if ch is not None:
                if a.op in ("and", "or", "max", "min"):
                    sa, sb = set(a.args), set(b.args)
                    ua, ub = [x for x in a.args if x not in sb], [x for x in b.args if x not in sa]
                    if len(ua) == 1 and len(ub) == 1:
                        return self.all([(ua[0], ub[0])], facts, path, a, b)
                    return self.verdict(a, b, path)
                return self.all(ch, facts, path, a, b)
        if (a.op == "store") != (b.op == "store"):
            st = a if a.op == "store" else b
            if len(st.args) == 3 and _slices(st.args[1]) and not _hasarrgate(a) and not _hasarrgate(b):
                return self.void(a, b, facts, path)
        if _arrlike(a) and _arrlike(b):
            r = self.elementwise(a, b, facts, path)
            if r is not None:
                return r
        return self.verdict(a, b, path)

    def void(self, a, b, facts, path):
        """a store to a range of elements against none: equal where the range is empty"""
        if clock.past(self.end):
            return Res("unknown", a, b, path, "out of time")
        st, other = (a, b) if a.op == "store" else (b, a)
        if st.op != "store":
            return self.go(a, b, facts, path)
        bounds_ = [(num(0) if lo is NONE else lo, hi) for lo, hi in _slices(st.args[1]) if hi is not NONE]
        m = [x for lo, hi in bounds_ for t in (lo, hi) for x in subterms(t) if x.op in ("min", "max") and len(x.args) == 2]
        m += [x for l in facts.lits for x in subterms(l) if x.op in ("min", "max") and len(x.args) == 2 and all(kind(y) in ("int", "scalar") for y in x.args)]
        m = [x for x in m if not any(y is not x and y.op in ("min", "max") for y in subterms(x))]
        worst = EQ
        if m:
            m = min(m, key=lambda x: x.id)
            for lit, v in ((le(*m.args), m.args[m.op == "max"]), (lt(m.args[1], m.args[0]), m.args[m.op == "min"])):
                f = Facts()
                for l in facts.lits:
                    f.add(subst(l, {m: v}))
                f.add(lit)
                if lit is FALSE or not f.consistent() or linear.infeasible(f.lits) or not _possible(f):
                    continue
                r = self.void(simplify(subst(a, {m: v}), f), simplify(subst(b, {m: v}), f), f, path + (lit,))
                if r.status == "diff":
                    return r
                worst = r if r.status == "unknown" else worst
            return worst
        for lo, hi in bounds_:
            g = le(hi, lo)
            q = facts.query(g)
            if q is True:
                return self.go(st.args[0], other, facts, path)
            if q is None:
                for lit in (g, not_(g)):
                    f = facts.copy()
                    f.add(lit)
                    if not f.consistent() or linear.infeasible(f.lits) or not _possible(f):
                        continue
                    r = self.void(a, b, f, path + (lit,))
                    if r.status == "diff":
                        return r
                    worst = r if r.status == "unknown" else worst
                return worst
        return self.verdict(a, b, path)

    def align(self, xs, ys):
        """pairs of corresponding children, or None if the shapes differ"""
        if len(xs) != len(ys):
            return None
        out = []
        for x, y in zip(xs, ys):
            if isinstance(x, Term) and isinstance(y, Term):
                out.append((x, y))
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if x and y and isinstance(x[0], tuple) and isinstance(y[0], tuple) and x[0] and isinstance(x[0][0], str):
                    dx, dy = dict(x), dict(y)     # keyword-style children
                    if set(dx) != set(dy):
                        return None
                    out.extend((dx[k], dy[k]) for k in dx)
                    continue
                r = self.align(x, y)
                if r is None:
                    return None
                out.extend(r)
            elif x != y or type(x) is not type(y):
                return None
        return out

    def all(self, pairs, facts, path, a, b):
        worst = EQ
        for x, y in pairs:
            if x is y:
                continue
            if not isinstance(x, Term) or not isinstance(y, Term):
                if x != y:
                    return self.verdict(a, b, path)
                continue
            r = self.go(x, y, facts, path)
            if r.status == "unknown":
                if not (worst.status == "diff"):
                    worst = r
            elif r.status == "diff":
                if worst.status != "unknown":
                    worst = r
        return worst

    def poly(self, a, b, facts, path):
        pa, pb = as_poly(a), as_poly(b)
        at_a = {x for m in pa for x, e in m} | {e for m in pa for x, e in m if not is_num(e)}
        at_b = {x for m in pb for x, e in m} | {e for m in pb for x, e in m if not is_num(e)}
        ua = [x for x in at_a - at_b if x.op not in ("num",)]
        ub = [x for x in at_b - at_a if x.op not in ("num",)]
        # pair atoms of the same shape that are equal under the facts
        mp = {}
        res = None
        for y in sorted(ub, key=lambda t: t.id):
            for x in ua:
                if x in mp.values() or x.op != y.op:
                    continue
                sub_ = Cmp(None, self.vocab, self.distinct)
                sub_.leaves = self.leaves
                r = sub_.go(y, x, facts, path)
                self.leaves = sub_.leaves
                if r.status == "eq":
                    mp[y] = x
                    break
                elif len(ua) == 1 and len(ub) == 1:
                    res = r
        if mp:
            # replace at top level only
            b2 = add(*[mul(num(c), *[pow_(mp.get(x, x), mp.get(e, e)) for x, e in m]) for m, c in pb.items()])
            if b2 is a:
                return EQ
            if not res:
                b = b2
        if is_zero(sub(a, b)):
            return EQ
        if res is not None and res.status != "eq":
            # a single differing atom: the difference is there if the rest coincides
            x, y = ua[0], ub[0]
            b3 = add(*[mul(num(c), *[pow_(x if z is y else z, x if e is y else e) for z, e in m]) for m, c in pb.items()])
            if b3 is a or is_zero(sub(a, b3)):
                return res
        # the same unknowns on both sides, up to proven equalities
        b2 = _substtop(b, mp) if mp else b
        r = ident.identity(a, b2, facts)
        if r is True:
            return EQ
        if _arrlike(a) and _arrlike(b):
            r2 = self.elementwise(a, b, facts, path)
            if r2 is not None:
                return r2
        if r is None and not ident.separable(a, b2, tuple(facts.lits)):
            return Res("unknown", a, b, path, "no identity decided")
        return self.verdict(a, b, path)

    def elementwise(self, a, b, facts, path):
        """compare a generic element of two arrays of the same shape when guards are elementwise"""
        if not (_hasarrgate(a) or _hasarrgate(b)):
            return None
        k = sym("elem#", "int")
        try:
            x, y = A.push_index(a, k), A.push_index(b, k)
        except Exception:
            return None
        if x is None or y is None or x is a or (x.op == "getitem" and x.args[0] is a and y.op == "getitem" and y.args[0] is b):
            return None
        return self.go(x, y, facts, path)

    def verdict(self, a, b, path):
        ta, tb = tokens(a), tokens(b)
        opq = {o for o in ta | tb if o.split(":")[0] in OPAQUE}
        if opq:
            # opaque parts may only occur identically
            oa = {s for s in subterms(a) if s.op in OPAQUE}
            ob = {s for s in subterms(b) if s.op in OPAQUE}
            if oa != ob:
                return Res("unknown", a, b, path, "opaque: %s" % sorted(opq)[:4])
        if linear.infeasible(list(path) + list(self.facts.lits)):
            return EQ
        extra = ta - self.vocab - self.distinct - opq
        if extra:
            return Res("unknown", a, b, path, "unmodelled form: %s" % sorted(extra)[:4])
        return Res("diff", a, b, path)


def _literals(lits, facts):
    r = list(lits)
    for l in (facts.lits if facts is not None else ()):
        if l not in r:
            r.append(l)
    return r


def _asfacts(lits, facts):
    f = Facts() if facts is None else facts.copy()
    for l in lits:
        f.add(l)
    return f


def _substtop(b, mp):
    return subst(b, mp)


def _slices(ix):
    """(start, stop) of every plain range in an index"""
    xs = ix.args[0] if ix.op == "tuple" else (ix,)
    return [(x.args[0], x.args[1]) for x in xs if isinstance(x, Term) and x.op == "slice" and (len(x.args) < 3 or x.args[2] is NONE or x.args[2] is num(1))]


def _isb(t):
    return T._isbool(t) or t.op == "const"


def _numlike(t):
    return t.op not in ("tuple", "list", "vec", "dict", "concat", "store", "map", "const", "str", "inst") and \
        kind(t) not in ("str", "none", "obj")


def _arrlike(t):
    return kind(t) == "arr" and t.op in A.ELEMENTWISE


def _hasarrgate(t):
    if t.op in A.ELEMENTWISE:
        if t.op == "ite" and kind(t.args[0]) == "arr":
            return True
        if t.op in ("and", "or", "not") and kind(t) == "arr":
            return True
        return any(_hasarrgate(c) for c in A.elem_children(t))
    return False


def is_zero(p, depth=0):
    """zero test with common denominators"""
    if p is ZERO:
        return True
    if p.op != "sum" or depth > 3:
        return False
    d = as_poly(p)
    # common factor: multiply by every sum-base with negative exponent
    dens = {}
    for m in d:
        for b, e in m:
            if is_num(e) and numval(e) < 0:
                k = -numval(e)
                if k.denominator != 1:
                    k = Fr(k.numerator // k.denominator + 1)
                dens[b] = max(dens.get(b, 0), k)
    sums = {b: k for b, k in dens.items()}
    if not sums:
        return _expand(p) is ZERO
    if len(d) > 60 or sum(sums.values()) > 12:
        return False
    q = {}
    for m, c in d.items():
        dm = dict(m)
        ok = True
        for b, k in sums.items():
            dm[b] = add(dm.get(b, ZERO), num(k))
        for mm, cc in T.norm_mono(dm).items():
            q[mm] = q.get(mm, 0) + cc * c
    r = _expand(from_poly(q))
    if r is ZERO:
        return True
    return is_zero(r, depth + 1) if r is not p else False


def _expand(p):
    """multiply out positive integer powers of sums and undo the big-product guard"""
    if p.op != "sum":
        return p
    out = {}
    for m, c in as_poly(p).items():
        q = {(): c}
        for b, e in m:
            if b.op == "factor" and e is ONE:
                f = as_poly(b.args[0])
            elif b.op == "sum" and is_num(e) and numval(e).denominator == 1 and 0 < numval(e) <= 8:
                f = {(): Fr(1)}
                for _ in range(int(numval(e))):
                    if len(f) * len(as_poly(b)) > 5000:
                        return p
                    f = T.poly_mul(f, as_poly(b))
            else:
                f = {((b, e),): Fr(1)}
            if len(q) * len(f) > 20000:
                return p
            q = T.poly_mul(q, f)
        for mm, cc in q.items():
            out[mm] = out.get(mm, 0) + cc
    return from_poly(out)


def compare(code, spec, facts=None, vocab=None, distinct=frozenset()):
    v = tokens(spec) if vocab is None else vocab
    c = Cmp(facts, v, distinct)
    f = facts or Facts()
    try:
        if code is not spec:
            spec = ident.unify(code, spec)
        r = c.go(code, spec, f)
        m = c.extreme(code, spec) if r.status == "unknown" else None
        if m is not None:
            c.leaves = 0
            r = c.split_extreme(m, code, spec, f, ())
        if r.status == "diff" and ident.identity(code, spec, facts, tries=90, need=60, nans=True) is True and \
                ident.identity(r.a, r.b, _asfacts(r.facts, facts), tries=200, need=6, nans=True) is not False and \
                not ident.separated(code, spec, _literals(r.facts, facts)):
            return Res("unknown", r.a, r.b, r.facts, "normal forms differ but no separating interpretation was found")
        return r
    except RecursionError:
        return Res("unknown", code, spec, (), "recursion")
