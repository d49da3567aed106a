"""Infeasibility of a set of linear inequalities between atoms (Fourier-Motzkin over the rationals, bounded)."""
from fractions import Fraction as Fr
from .terms import *

LIMIT = 300
_memo = {}


def _row(p, strict):
    """(coefficients by monomial, constant, strict): sum + constant <= 0 (< 0)"""
    c, k = {}, Fr(0)
    for m, v in p.items():
        if m == ():
            k += v
        else:
            c[m] = v
    return c, k, strict


def _integral(c, k):
    return all(v.denominator == 1 and all(isint(x) and e is ONE for x, e in m) for m, v in c.items())


def rows(lits):
    out = []
    seen = set()
    atoms = set()

    def go(l):
        if l.op == "and":
            for x in l.args:
                go(x)
            return
        if l.op not in ("le0", "lt0", "eq0") or kind(l.args[0]) == "arr":
            return
        p = as_poly(l.args[0])
        c, k, st = _row(p, l.op == "lt0")
        out.append((c, k, st))
        if l.op == "eq0":
            out.append(({m: -v for m, v in c.items()}, -k, False))
        for m in c:
            atoms.add(m)
    for l in lits:
        go(l)
    todo = list(atoms)
    while todo:
        m = todo.pop()
        if m in seen or len(m) != 1 or m[0][1] is not ONE:
            continue
        seen.add(m)
        x = m[0][0]
        if nonneg(x):
            out.append(({m: Fr(-1)}, Fr(0), False))
        if x.op == "floordiv" and x.args[1].op == "num" and x.args[1].args[0] > 0:
            # d*q <= x < d*q + d
            d = x.args[1].args[0]
            pc, pk, _ = _row(as_poly(x.args[0]), False)
            up = {k: -v for k, v in pc.items()}
            up[m] = up.get(m, 0) + d
            out.append((up, -pk, False))
            lo = dict(pc)
            lo[m] = lo.get(m, 0) - d
            out.append((lo, pk - d, True))
            todo.extend(pc)
    return out


def _tight(c, k, strict):
    c = {m: v for m, v in c.items() if v}
    if strict and _integral(c, k):
        return c, (Fr(k.numerator // k.denominator) + 1), False
    return c, k, strict


def infeasible(lits):
    """True when no real (integer) values of the atoms satisfy all the literals; False when not shown"""
    key = frozenset(l.id for l in lits)
    r = _memo.get(key)
    if r is None:
        r = _memo[key] = _solve(lits)
    return r


def _solve(lits):
    rs = [_tight(*r) for r in rows(lits)]
    while True:
        keep = {}
        for c, k, s in rs:
            if not c:
                if k > 0 or (k == 0 and s):
                    return True
                continue
            # scaled to a leading coefficient of one, only the strongest of parallel rows
            m0 = min(c, key=lambda m: tuple((x.id, e.id) for x, e in m))
            f = abs(c[m0])
            sig = tuple(sorted(((tuple((x.id, e.id) for x, e in m), v / f) for m, v in c.items())))
            old = keep.get(sig)
            if old is None or (k / f, s) > (old[1], old[2]):
                keep[sig] = ({m: v / f for m, v in c.items()}, k / f, s)
        rs = list(keep.values())
        if not rs or len(rs) > LIMIT:
            return False
        cnt = {}
        for c, k, s in rs:
            for m, v in c.items():
                p, n = cnt.get(m, (0, 0))
                cnt[m] = (p + (v > 0), n + (v < 0))
        m = min(cnt, key=lambda m: (cnt[m][0] * cnt[m][1], tuple((x.id, e.id) for x, e in m)))
        pos = [r for r in rs if r[0].get(m, 0) > 0]
        neg = [r for r in rs if r[0].get(m, 0) < 0]
        rs = [r for r in rs if m not in r[0]]
        for pc, pk, ps in pos:
            for nc, nk, ns in neg:
                a, b = -nc[m], pc[m]
                c = {}
                for t, v in pc.items():
                    c[t] = c.get(t, 0) + a * v
                for t, v in nc.items():
                    c[t] = c.get(t, 0) + b * v
                c.pop(m, None)
                rs.append(({t: v for t, v in c.items() if v}, a * pk + b * nk, ps or ns))
