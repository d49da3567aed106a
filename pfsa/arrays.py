"""Array and container terms in normal form."""
from .terms import *
from .terms import _signnorm, _scal, _builders, _cmpnorm
from . import terms as T

ELEMENTWISE = {"sum", "abs", "max", "min", "ite", "lt0", "le0", "eq0", "not", "and", "or", "isnan", "isfinite",
               "ln", "cos", "sin", "tan", "gamma", "gammainc", "gammaincinv", "round", "trunc", "floor", "ceil",
               "mod", "floordiv", "factor", "eq", "interp", "isinf", "arctan2", "sign"}
SCALAR_LEAF = {"num", "const", "nan", "inf", "pi", "E"}


def tup(*items):
    return mk("tuple", tuple(items))


def is_seq(t):
    return t.op in ("tuple", "vec")


def seq_items(t):
    return t.args[0]


def slc(a=NONE, b=NONE, c=NONE):
    if a is ZERO:
        a = NONE
    if c is ONE:
        c = NONE
    return mk("slice", a, b, c)


def lift(fn, *ts):
    """apply an elementwise function of terms over concrete vectors"""
    ts = list(ts)
    # a column of length-1 etc is not modelled; only vec/tuple against scalars or symbolic sequences
    for t in ts:
        if t.op == "vec":
            n = len(t.args[0])
            if n == 1 and any(u.op not in ("vec", "tuple") and kind(u) not in ("scalar", "int", "bool", "str") and
                              u.op not in SCALAR_LEAF and length(u) is not ONE for u in ts):
                # one element broadcasts against whatever the other operand is
                ts = [u.args[0][0] if u.op in ("vec", "tuple") and len(u.args[0]) == 1 else u for u in ts]
                return lift(fn, *ts)
            cols = []
            for u in ts:
                if u.op in ("vec", "tuple"):
                    if len(u.args[0]) != n:
                        return None
                    cols.append(list(u.args[0]))
                elif kind(u) in ("scalar", "int", "bool", "str") or u.op in SCALAR_LEAF:
                    cols.append([u] * n)
                elif kind(u) == "arr" or u.op in ("asarray", "attr"):
                    cols.append([getitem(u, num(i)) for i in range(n)])
                else:
                    cols.append([getitem(u, num(i)) if u.op in ("sym", "asarr") else u for i in range(n)])
            return mk("vec", tuple(lift(fn, *row) if any(x.op == "vec" for x in row) else fn(*row)
                                   for row in zip(*cols)))
    return fn(*ts)


def isboolarr(t):
    return t.op in ("lt0", "le0", "eq0", "not", "and", "or", "isnan", "isfinite", "eq") or \
        (t.op == "sym" and t.args[1] == "barr") or (t.op == "getitem" and isboolarr(t.args[0])) or \
        (t.op == "full" and t.args[1].op == "const") or (t.op == "isin")


def canon_index(i):
    """mask-like forms of an index"""
    if i.op == "where0":
        return i.args[0]
    if i.op == "where":
        return i.args[0]
    if i.op == "tuple" and i.args[0]:
        it = i.args[0]
        # (where(m)[0], where(m)[1]) -> m
        if all(x.op == "wherek" and x.args[0] is it[0].args[0] and x.args[1] is num(k) for k, x in enumerate(it)) \
                and it[0].op == "wherek":
            return it[0].args[0]
        if len(it) == 1:
            return canon_index(it[0])
        # trailing full slices
        while len(it) > 1 and it[-1].op == "slice" and all(a is NONE for a in it[-1].args):
            it = it[:-1]
            if len(it) == 1:
                return canon_index(it[0])
        return tup(*it)
    return i


def getitem(b, i):
    i = canon_index(i)
    if b.op in ("tuple", "vec", "list") and i.op == "num" and numval(i).denominator == 1:
        n = len(b.args[0])
        k = int(numval(i))
        if -n <= k < n:
            return b.args[0][k]
    if b.op in ("tuple", "vec", "list") and i.op == "slice":
        try:
            a = [None if x is NONE else int(numval(x)) for x in i.args]
            return mk(b.op, tuple(b.args[0][a[0]:a[1]:a[2]]))
        except Exception:
            pass
    if b.op == "dict":
        for k, v in b.args[0]:
            if k is i:
                return v
    if b.op == "table" and i.op == "const":
        for k, v in b.args[0]:
            if k is i:
                return v
    if b.op == "getitem" and i.op == "const" and isinstance(i.args[0], str) and \
            not (b.args[1].op == "const"):
        # table[row]["col"] -> table["col"][row]
        return getitem(getitem(b.args[0], i), b.args[1])
    if i.op == "ite" and b.op in ("tuple", "vec", "list", "dict", "table"):
        return ite(i.args[0], getitem(b, i.args[1]), getitem(b, i.args[2]))
    if b.op == "ite" and kind(b.args[0]) != "arr":
        return ite(b.args[0], getitem(b.args[1], i), getitem(b.args[2], i))
    if b.op == "argwhere" and i.op == "tuple" and len(i.args[0]) == 2 and i.args[0][0].op == "slice" and \
            all(x is NONE for x in i.args[0][0].args) and i.args[0][1].op == "num":
        return getitem(mk("where", b.args[0]), i.args[0][1])
    if b.op == "argwhere_t" and i.op == "num":
        return getitem(mk("where", b.args[0]), i)
    if b.op == "where" and i.op == "num":
        return mk("where0", b.args[0]) if (i is ZERO and ndim(b.args[0]) == 1) else mk("wherek", b.args[0], i)
    if b.op == "where0" and i is ZERO:
        return mk("firstidx", b.args[0])
    if b.op == "where0" and i.op == "num" and numval(i) == -1:
        return mk("lastidx", b.args[0])
    if i.op == "iota" and kind(b) == "arr" and length(b) is i.args[0]:
        return b
    if b.op == "full":
        if kind(i) in ("int", "scalar") and ndim(b) == 1:
            return b.args[1]
        return mk("full", mk("shapeof", b.args[0], i), b.args[1])
    if b.op == "map":
        return map_get(b, i)
    if b.op == "asarr":
        if i.op == "bound" or kind(i) in ("int", "scalar"):
            return getitem(b.args[0], i)
    if b.op == "concat":
        parts = b.args[0]
        p0 = parts[0]
        if p0.op in ("tuple", "vec", "list") and len(p0.args[0]) == 1:
            if i is ZERO:
                return p0.args[0][0]
            if i.op == "slice" and i.args[0] is ONE and i.args[1] is NONE and i.args[2] is NONE:
                return concat(*parts[1:])
            if i.op == "slice" and i.args[0] is NONE and i.args[1] is num(-1) and i.args[2] is NONE and len(parts) == 2:
                return concat(p0, getitem(parts[1], i))
            if i.op == "num" and numval(i) > 0 and numval(i).denominator == 1 and len(parts) == 2:
                return getitem(parts[1], sub(i, ONE))
        pl = parts[-1]
        if i is num(-1) and pl.op in ("tuple", "vec", "list"):
            return pl.args[0][-1]
        if i is num(-1) and kind(pl) == "arr":
            return getitem(pl, i)
    if b.op == "setidx":     # setidx(x, k, v): one element replaced
        x, k, v = b.args
        if i is k:
            return v
        if i.op == "num" and k.op == "num":
            return getitem(x, i)
        if k is ZERO and i.op == "slice" and i.args[0].op == "num" and numval(i.args[0]) >= 1 and i.args[2] is NONE:
            return getitem(x, i)
        if k is ZERO and i.op == "slice" and i.args[0] is NONE and i.args[2] is NONE:
            return mk("setidx", getitem(x, i), k, v)
    if b.op == "iota" and i.op == "num" and numval(i) < 0:
        return add(b.args[0], i)
    if b.op in ("meshx", "meshy") and isboolarr(i) and b.args[2].op == "iota":
        k = 1 if b.op == "meshx" else 0
        sh = shape_(i)
        n = sh.args[0][k] if sh.op == "tuple" and len(sh.args[0]) == 2 else mk("dim", sh.args[0], num(k)) if sh.op == "shape" else None
        if n is b.args[2].args[0]:
            return mk("wherek", i, num(k))
    if b.op in ("meshx", "meshy") and i.op == "tuple" and len(i.args[0]) == 2 and all(kind(x) in ("int", "scalar") for x in i.args[0]):
        return getitem(b.args[2], i.args[0][1 if b.op == "meshx" else 0])
    if b.op == "iota" and i.op == "sum" and is_num(sub(i, b.args[0])) and numval(sub(i, b.args[0])) < 0:
        return i
    if b.op == "iota" and (i.op in ("bound", "num")) and not (i.op == "num" and numval(i) < 0):
        return i
    if b.op == "range":
        return add(b.args[0], mul(b.args[2], i)) if not (i.op in ("slice",) or kind(i) == "arr") else mk("getitem", b, i)
    if b.op == "getitem" and b.args[1].op == "slice":
        a, e, st = b.args[1].args
        if st is NONE:
            if i.op == "slice" and i.args[2] is NONE:
                a2, e2, _ = i.args
                an, a2n = (ZERO if a is NONE else a), (ZERO if a2 is NONE else a2)
                if _nn(an) and _nn(a2n):
                    if e2 is NONE:
                        return getitem(b.args[0], slc(add(an, a2n), e))
                    if e is NONE and _nn(e2):
                        return getitem(b.args[0], slc(add(an, a2n), add(an, e2)))
                    if e2.op == "num" and numval(e2) < 0 and (e is NONE or (e.op == "num" and numval(e) < 0)):
                        return getitem(b.args[0], slc(add(an, a2n), add(e, e2) if e is not NONE else e2))
            if i.op == "num" and numval(i).denominator == 1:
                an = ZERO if a is NONE else a
                if numval(i) >= 0 and _nn(an):
                    return getitem(b.args[0], add(an, i))
                if numval(i) < 0 and e is NONE and a.op == "num":
                    return getitem(b.args[0], i)
                if numval(i) < 0 and e.op == "num" and numval(e) < 0:
                    return getitem(b.args[0], add(e, i))
            if i.op == "bound":
                an = ZERO if a is NONE else a
                if _nn(an):
                    return getitem(b.args[0], add(an, i))
    if i.op == "slice":
        a, e, st = i.args
        L = length(b)
        if e is not NONE and L is not None and e is L:
            e = NONE
        if e is not NONE and L is not None:
            d = sub(e, L)
            if is_num(d) and numval(d) < 0:
                e = d
        if a is not NONE and L is not None and not is_num(a):
            d = sub(a, L)
            if is_num(d) and numval(d) < 0:
                a = d
        if a is not NONE and a.op == "num" and numval(a) == 0:
            a = NONE
        if a is NONE and e is NONE and st is NONE:
            return b
        i = mk("slice", a, e, st)
    if b.op in ELEMENTWISE and kind(b) == "arr":
        r = push_index(b, i)
        if r is not None:
            return r
    return mk("getitem", b, i)


def _nn(t):
    return (t.op == "num" and numval(t) >= 0) or t.op in ("len", "bound") or nonneg(t)


def push_index(b, i):
    known = {}
    if isboolarr(i):         # the conditions of a boolean index hold on what it selects
        for c in (i.args if i.op == "and" else (i,)):
            known[c] = TRUE
            known[not_(c)] = FALSE

    def go(t):
        k = kind(t)
        if k in ("scalar", "int", "bool", "str") or t.op in SCALAR_LEAF:
            return t
        if k != "arr":
            raise _NoPush()
        if t in known:
            return known[t]
        if t.op in ELEMENTWISE:
            if t.op == "sum":
                return add(*[mul(num(c), *[pow_(go(bb), go(ee)) for bb, ee in m]) for m, c in t.args[0]])
            return rebuild(t.op, tuple(go(a) if isinstance(a, Term) else a for a in t.args))
        if t.op == "full":
            return t.args[1]
        return getitem(t, i)
    try:
        return go(b)
    except _NoPush:
        return None


class _NoPush(Exception):
    pass


def ndim(t):
    if t.op == "masked":
        return ndim(t.args[0])
    if t.op == "sym":
        return {"arr1": 1, "arr2": 2, "barr": None}.get(t.args[1])
    if t.op in ("concat", "linspace", "iota", "range", "where0", "map", "uniq", "uniqinv", "uniqfirst", "wherek"):
        return 1
    if t.op in ("store", "setidx", "asarr"):
        return ndim(t.args[0])
    if t.op in ("meshx", "meshy"):
        return 2
    if t.op == "full":
        s = t.args[0]
        if s.op == "shape":
            return ndim(s.args[0])
        if s.op == "tuple":
            return len(s.args[0])
        if s.op in ("num", "len") or kind(s) == "int":
            return 1
        return None
    if t.op == "getitem":
        if t.args[1].op == "slice" or isboolarr(t.args[1]):
            return ndim(t.args[0]) if t.args[1].op == "slice" else 1
        if kind(t.args[1]) == "arr" and ndim(t.args[0]) == 1:
            return ndim(t.args[1])
        return None
    if t.op == "call" and t.args[0] in ("petrofit.interp",):
        return ndim(dict(t.args[1]).get("x", NONE))
    if t.op in ELEMENTWISE:
        ns = {ndim(c) for c in elem_children(t) if kind(c) == "arr"}
        ns.discard(None)
        if len(ns) == 1:
            return ns.pop()
    return None


def elem_children(t):
    if t.op == "sum":
        return [x for m, c in t.args[0] for be in m for x in be]
    return [a for a in t.args if isinstance(a, Term)]


def length(t):
    """term for len(t), or None"""
    if t.op == "sym":
        n = dict(t.args[2]).get("len")
        if n is not None:
            return n if isinstance(n, Term) else num(n)
    if t.op in ("tuple", "vec", "list", "concatlist"):
        return num(len(t.args[0]))
    if t.op == "const" and isinstance(t.args[0], str):
        return num(len(t.args[0]))
    if t.op == "dict":
        return num(len(t.args[0]))
    if t.op == "map":
        if len(t.args[0]) == 1:
            return t.args[0][0].args[1]
        return mk("len", t)
    if t.op in ("setidx", "asarr", "store"):
        return length(t.args[0])
    if t.op == "concat":
        ls = [length(p) for p in t.args[0]]
        return add(*ls)
    if t.op == "iota":
        return t.args[0]
    if t.op == "linspace":
        return t.args[2]
    if t.op == "range":
        return t.args[3]
    if t.op == "uniqinv":
        return length(t.args[0])
    if t.op == "full":
        s = t.args[0]
        if s.op == "shape":
            return length(s.args[0])
        if s.op == "tuple" and s.args[0]:
            return s.args[0][0]
        if kind(s) == "int":
            return s
    if t.op == "getitem" and kind(t) == "arr":
        i = t.args[1]
        if i.op == "slice" and i.args[2] is NONE:
            L = length(t.args[0])
            a, e = i.args[0], i.args[1]
            if L is not None and (a is NONE or a.op == "num") and (e is NONE or e.op == "num"):
                lo = ZERO if a is NONE else a if numval(a) >= 0 else add(L, a)
                hi = L if e is NONE else e if numval(e) >= 0 else add(L, e)
                return sub(hi, lo)
        if i.op == "uniqinv" or (kind(i) == "arr" and not isboolarr(i) and i.op != "wherek"):
            L = length(i)
            if L is not None:
                return L
        if isboolarr(i):
            return mk("count", i)
    if t.op in ("where0", "wherek"):
        return mk("count", t.args[0])
    if t.op in ELEMENTWISE and kind(t) == "arr":
        for c in elem_children(t):
            if kind(c) == "arr" and c.op != "full":
                return length(c)
    if t.op == "ite":
        a, b = length(t.args[1]), length(t.args[2])
        if a is not None and b is not None:
            return ite(t.args[0], a, b)
    return mk("len", t)


def size_(t):
    if ndim(t) == 1 or t.op in ("tuple", "vec", "where0"):
        return length(t)
    if t.op == "num":
        return ONE
    return mk("size", t)


def shape_(t):
    if t.op == "masked":
        return shape_(t.args[0])
    while t.op in ("store", "setidx", "asarr"):
        t = t.args[0]
    if t.op == "attr" and t.args[1] == "data" and t.args[0].op == "call" and t.args[0].args[0] == "astropy.nddata.Cutout2D":
        d = dict(t.args[0].args[1])
        n = d.get("size")
        if n is not None and kind(n) == "int" and d.get("mode") is const("partial"):
            return tup(n, n)
    if t.op == "full":
        s = t.args[0]
        if s.op == "shape":
            return s
        if s.op == "tuple":
            return s
        if kind(s) == "int":
            return tup(s)
    if t.op == "vec":
        return tup(num(len(t.args[0])))
    if t.op in ELEMENTWISE and kind(t) == "arr":
        cs = {shape_(c).id: shape_(c) for c in elem_children(t) if kind(c) == "arr"}
        if len(cs) == 1:
            return next(iter(cs.values()))
        if len(cs) > 1:       # combined elementwise: of one shape (a mismatch raises)
            two = [x for x in cs.values() if x.op == "tuple" or (x.op == "shape" and ndim(x.args[0]) not in (None, 0))]
            if two and len({len(x.args[0]) if x.op == "tuple" else ndim(x.args[0]) for x in two}) == 1:
                return min(two, key=lambda x: (x.op != "shape", show(x, 6)))
    if ndim(t) == 1:
        return tup(length(t))
    if t.op == "attr" and t.args[1] == "data" and False:
        return shape_(t.args[0])
    return mk("shape", t)


def full(shape, v):
    return mk("full", shape, v)


def concat(*parts):
    out = []
    for p in parts:
        if p.op == "concat":
            ps = list(p.args[0])
        else:
            ps = [p]
        for q in ps:
            if q.op in ("tuple", "vec", "list"):
                if not q.args[0]:
                    continue
                q = mk("vec", q.args[0])
                if out and out[-1].op == "vec":
                    out[-1] = mk("vec", out[-1].args[0] + q.args[0])
                    continue
            out.append(q)
    if not out:
        return mk("vec", ())
    if len(out) == 1:
        return out[0]
    return mk("concat", tuple(out))


def diff(x):
    return sub(getitem(x, slc(ONE)), getitem(x, slc(NONE, num(-1))))


# ------------------------------------------------------------ maps over symbolic domains
def bound(level, dom):
    return mk("bound", level, dom)


def mk_map(bs, body):
    """array of body over the index variables bs (outermost first)"""
    bs = tuple(bs)
    if len(bs) == 1:
        b = bs[0]
        r = vectorise(body, b)
        if r is not None:
            return r
    return mk("map", bs, body)


def vectorise(body, b):
    dom = b.args[1]

    def go(t):
        if b not in bounds(t):
            if kind(t) == "arr":
                raise _NoPush()
            return t
        if t is b:
            return iota(dom)
        if t.op == "getitem" and t.args[1] is b and b not in bounds(t.args[0]) and length(t.args[0]) is dom:
            return t.args[0]
        if t.op == "getitem" and b not in bounds(t.args[0]) and t.args[1].op == "sum":
            off = sub(t.args[1], b)
            if is_num(off) and numval(off) > 0:
                L = length(t.args[0])
                if L is not None and sub(L, off) is dom:
                    return getitem(t.args[0], slc(off))
                return getitem(t.args[0], slc(off, add(dom, off)))
        if t.op == "getitem" and t.args[1] is b and b not in bounds(t.args[0]):
            L = length(t.args[0])
            if L is not None and kind(t.args[0]) == "arr":
                d = sub(dom, L)
                if is_num(d) and numval(d) < 0:
                    return getitem(t.args[0], slc(NONE, d))
        if t.op in ELEMENTWISE:
            if t.op == "sum":
                return add(*[mul(num(c), *[pow_(go(bb), go(ee)) for bb, ee in m]) for m, c in t.args[0]])
            return rebuild(t.op, tuple(go(a) if isinstance(a, Term) else a for a in t.args))
        raise _NoPush()
    try:
        return go(body)
    except _NoPush:
        return None


def iota(n):
    return mk("iota", n)


def map_get(m, i):
    bs, body = m.args
    if len(bs) == 1:
        b = bs[0]
        if i.op == "bound" or i.op == "num" or kind(i) in ("int",):
            if i.op == "num" and numval(i) < 0:
                i = add(b.args[1], i)
            return subst(body, {b: i})
        if i.op == "slice" and i.args[2] is NONE and i.args[0].op == "num" and i.args[1] is NONE and numval(i.args[0]) > 0:
            pass
    return mk("getitem", m, i)


# ------------------------------------------------------------ stores
def store(x, i, v):
    """value of x after x[i] = v"""
    i = canon_index(i)
    if isboolarr(i) or i.op in ("lt0", "le0", "eq0"):
        vv = unmask(v, i)
        if vv is not None:
            base = x.args[1] if x.op == "full" else x
            if base.op == "full":
                base = base.args[1]
            r = ite(i, vv, base)
            return r
        return mk("store", x, i, v)
    if i.op == "vec" and x.op == "vec" and len(i.args[0]) == len(x.args[0]) and kind(v) != "arr" and \
            all(c in (TRUE, FALSE) or kind(c) == "bool" for c in i.args[0]):
        return mk("vec", tuple(ite(c, v, a) for c, a in zip(i.args[0], x.args[0])))
    if i.op == "slice" and all(a is NONE for a in i.args):
        return v if kind(v) == "arr" else full(shape_(x), v)
    if i.op == "const" and i.args[0] is Ellipsis:
        return v if kind(v) == "arr" else full(shape_(x), v)
    if x.op in ("vec", "tuple", "list") and i.op == "num":
        items = list(x.args[0])
        k = int(numval(i))
        if -len(items) <= k < len(items):
            items[k] = v
            return mk(x.op, tuple(items))
    if kind(i) in ("int",) and i.op == "num" and x.op == "concat" and i is ZERO and x.args[0][0].op == "vec":
        f = list(x.args[0][0].args[0])
        f[0] = v
        return mk("concat", (mk("vec", tuple(f)),) + x.args[0][1:])
    if i is ZERO and (ndim(x) == 1):
        # replacing the first element is the same as concatenating it to the rest
        return concat(mk("vec", (v,)), getitem(x, slc(ONE)))
    if x.op == "concat" and i.op == "slice" and i.args[0] is ONE and i.args[1] is NONE and i.args[2] is NONE \
            and x.args[0][0].op == "vec" and len(x.args[0][0].args[0]) == 1:
        return concat(x.args[0][0], v)
    if x.op == "full" and i.op == "slice" and i.args[0] is ONE and i.args[1] is NONE and i.args[2] is NONE and ndim(x) == 1 and kind(v) == "arr":
        return concat(mk("vec", (x.args[1],)), v)
    if kind(i) == "int" and i.op != "slice":
        if x.op == "setidx" and x.args[1] is i:
            return mk("setidx", x.args[0], i, v)
        return mk("setidx", x, i, v)
    return mk("store", x, i, v)


def unmask(v, m):
    """w such that w[m] == v, if v is an elementwise expression of things indexed by m (or scalar)"""
    def go(t):
        k = kind(t)
        if t.op in SCALAR_LEAF or k in ("scalar", "int", "bool"):
            return t
        if t.op == "getitem" and t.args[1] is m:
            return t.args[0]
        if t.op == "getitem":
            # x[1:][m] was normalised as getitem(getitem(x, 1:), m): handled above
            raise _NoPush()
        if t.op in ELEMENTWISE:
            if t.op == "sum":
                return add(*[mul(num(c), *[pow_(go(bb), go(ee)) for bb, ee in mm]) for mm, c in t.args[0]])
            return rebuild(t.op, tuple(go(a) if isinstance(a, Term) else a for a in t.args))
        if t.op == "full":
            return t.args[1]
        raise _NoPush()
    try:
        return go(v)
    except _NoPush:
        return None


# ------------------------------------------------------------ reductions
def reduce_(op, t):
    """amin amax asum any all over everything"""
    if t.op in ("tuple", "vec", "list"):
        its = t.args[0]
        if its:
            if op == "any":
                return or_(*[_anyelem(x) for x in its])
            if op == "all":
                return and_(*[_allelem(x) for x in its])
            if all(kind(x) in ("scalar", "int", None, "bool") for x in its):
                if op == "amin":
                    return mnmx("min", *its)
                if op == "amax":
                    return mnmx("max", *its)
                if op == "asum":
                    return add(*its)
    if op in ("any", "all"):
        if t.op == "const":
            return t
        if t.op == "full":
            return t.args[1]
        if op == "any":
            if t.op == "or":
                return or_(*[reduce_("any", a) for a in t.args])
            if kind(t) in ("bool",):
                return t
            return mk("any", t)
        if t.op == "and":
            return and_(*[reduce_("all", a) for a in t.args])
        if kind(t) == "bool":
            return t
        # all(x) == not any(not x)
        return not_(mk("any", not_(t))) if False else mk("all", t)
    if t.op == "ite" and kind(t.args[0]) != "arr" and kind(t.args[0]) is not None:
        return ite(t.args[0], reduce_(op, t.args[1]), reduce_(op, t.args[2]))
    if t.op == "asarr":
        t = t.args[0]
    if op == "asum" and isboolarr(t):
        return mk("count", t)
    if kind(t) in ("scalar", "int") and op != "asum":
        return t
    if t.op == "full" and op in ("amin", "amax"):
        return t.args[1]
    if op == "asum" and t.op == "sum":
        # linear: take out scalar factors, split sums
        out = []
        for m, c in t.args[0]:
            sc, ar = [num(c)], []
            for b, e in m:
                if kind(b) in ("scalar", "int") and kind(e) in ("scalar", "int"):
                    sc.append(pow_(b, e))
                else:
                    ar.append(pow_(b, e))
            if not ar:
                return mk("asum", t)
            out.append(mul(*sc, mk("asum", mul(*ar))))
        return add(*out)
    if op in ("amin", "amax") and t.op == "sum":
        content, prim = T.factor_content(t)
        p = as_poly(t)
        if len(p) == 1:
            (m, c), = p.items()
            sc, ar = [num(abs(c))], []
            ok = True
            for b, e in m:
                if kind(b) in ("scalar", "int") and positive(b):
                    sc.append(pow_(b, e))
                else:
                    ar.append(pow_(b, e))
            if (len(sc) > 1 or abs(c) != 1 or c < 0):
                o = op if c > 0 else ("amin" if op == "amax" else "amax")
                r = mul(*sc, reduce_(o, mul(*ar)))
                return r if c > 0 else neg(r)
        else:
            sc = {m: c for m, c in p.items() if all(kind(b) in ("scalar", "int") and kind(e) in ("scalar", "int") for b, e in m)}
            if sc and len(sc) < len(p):
                rest = from_poly({m: c for m, c in p.items() if m not in sc})
                return add(from_poly(sc), reduce_(op, rest))
    if op in ("amin", "amax") and t.op in ("iota",):
        return ZERO if op == "amin" else sub(t.args[0], ONE)
    return mk(op, t)


def _anyelem(x):
    return x if kind(x) == "bool" or x.op in ("const",) else reduce_("any", x)


def _allelem(x):
    return x if kind(x) == "bool" or x.op in ("const",) else reduce_("all", x)


def argext(op, t):
    """argmin / argmax, up to strictly increasing transformations of the values"""
    t0 = t
    while True:
        p = as_poly(t)
        if len(p) == 1:
            (m, c), = p.items()
            # drop positive scalar factors
            ar = [(b, e) for b, e in m if not (kind(b) in ("scalar", "int") and positive(b))]
            if c > 0 and len(ar) == 1 and is_num(ar[0][1]) and numval(ar[0][1]) > 0 and numval(ar[0][1]) != 1 \
                    and (numval(ar[0][1]).denominator % 2 == 0 or nonneg(ar[0][0])):
                t = ar[0][0]
                continue
            if c > 0 and (c != 1 or len(ar) != len(m)) and ar:
                t = mul(*[pow_(b, e) for b, e in ar])
                continue
        else:
            content, prim = T.factor_content(t)
            if content is not ONE and kind(content) in ("scalar", "int") and positive(content):
                t = prim
                continue
            # drop common even powers of scalars of unknown sign: handled by factor_content above
            if content is not ONE and kind(content) in ("scalar", "int"):
                pc = as_poly(content)
                (m, c), = pc.items()
                if c > 0 and all(is_num(e) and numval(e).denominator == 1 and int(numval(e)) % 2 == 0 for b, e in m):
                    t = prim
                    continue
        if t.op == "ite" and kind(t.args[0]) not in ("arr", None):
            return ite(t.args[0], argext(op, t.args[1]), argext(op, t.args[2]))
        break
    return mk(op, t)


def _count_cmp(op, p):
    """comparisons of count(mask) with 0 as any(mask)"""
    d = as_poly(p)
    cs = [m for m in d if len(m) == 1 and m[0][0].op == "count" and m[0][1] is ONE]
    if len(cs) == 1 and len(d) <= 2 and all(m == () or m is cs[0] for m in d):
        c = d[cs[0]]
        k = d.get((), 0)
        msk = cs[0][0][0].args[0]
        # c*count + k (op) 0
        if op == "le0":
            if c == -1 and k == 1:
                return reduce_("any", msk)
            if c == 1 and k == 0:
                return not_(reduce_("any", msk))
        if op == "lt0":
            if c == -1 and k == 0:
                return reduce_("any", msk)
            if c == 1 and k == -1:
                return not_(reduce_("any", msk))
        if op == "eq0" and k == 0:
            return not_(reduce_("any", msk))
    return None


_lt0, _le0, _eq = T.lt0, T.le0, T.eq


def lt0x(p):
    r = _count_cmp("lt0", p)
    return r if r is not None else _lt0(p)


def le0x(p):
    r = _count_cmp("le0", p)
    return r if r is not None else _le0(p)


def eqx(a, b):
    if a.op == "vec" and b.op == "vec" and False:
        pass
    r = _eq(a, b)
    if r.op == "eq0":
        q = _count_cmp("eq0", r.args[0])
        if q is not None:
            return q
    return r


T.lt0, T.le0, T.eq = lt0x, le0x, eqx
lt0, le0, eq = lt0x, le0x, eqx
_builders.update({
    "getitem": getitem, "concat": lambda ps: concat(*ps), "amin": lambda t: reduce_("amin", t),
    "amax": lambda t: reduce_("amax", t), "asum": lambda t: reduce_("asum", t), "any": lambda t: reduce_("any", t),
    "all": lambda t: reduce_("all", t), "argmin": lambda t: argext("argmin", t), "argmax": lambda t: argext("argmax", t),
    "map": mk_map, "lt0": lt0x, "le0": le0x, "eq": eqx,
    "eq0": lambda p: eqx(p, ZERO), "len": lambda t: length(t) or mk("len", t),
    "size": size_, "shape": shape_, "slice": slc, "store": store,
    "count": lambda m: mk("count", m),
})
