"""Obligations of one property: run the abstract interpreter on client/reference pairs and record what was decided."""
import json
import os
import sys
import time
import traceback
from . import harness, equal
from .terms import *
from .terms import Term
from .facts import Facts, simplify
from .interp import Source

IGNORED_SPECFAIL = True


class Obligation:
    def __init__(self, rule, label, status, detail="", construct="", functions=(), terms=0):
        self.rule, self.label, self.status, self.detail = rule, label, status, detail
        self.construct, self.functions, self.terms = construct, tuple(functions), terms

    def key(self):
        return "%s :: %s" % (self.label, self.construct)


class Check:
    def __init__(self, pid, root="/repo", override=None, tier="quick"):
        self.pid, self.tier = pid, tier
        self.source = Source(root, override=override)
        self.obs = []
        self.functions = {}
        self.calls = 0
        self.t0 = time.time()

    # ------------------------------------------------------------- running
    def run(self, text, params=None, entry="client", assume=None, opts=None, count=True):
        try:
            o = harness.run(self.source, text, entry=entry, params=params, assume=assume, opts=opts)
        except RecursionError:
            o = harness.Outcome()
            o.unsup = "recursion"
        except Exception as e:
            if os.environ.get("PFSA_DEBUG"):
                traceback.print_exc()
            o = harness.Outcome()
            o.unsup = "internal error: %s: %s" % (type(e).__name__, str(e)[:200])
        if count and o.it is not None:
            for f, n in o.it.inlined.items():
                if not f.startswith("client."):
                    self.functions[f] = self.functions.get(f, 0) + n
        return o

    def add(self, rule, label, status, detail="", construct="", o=None):
        fns = ()
        if o is not None and o.it is not None:
            fns = sorted(f for f in o.it.inlined if not f.startswith("client."))
        ob = Obligation(rule, label, status, detail, construct, fns)
        self.obs.append(ob)
        return ob

    # ------------------------------------------------------------- locating
    def where(self, o, t):
        """source construct that produced (the closest enclosing part of) a term"""
        if o.it is None or t is None:
            return "?"
        seen, q = set(), [t]
        best = None
        while q:
            x = q.pop(0)
            if x.id in seen:
                continue
            seen.add(x.id)
            p = o.it.prov.get(x.id)
            if p and not p[0].startswith("<") and x.op not in ("num", "const", "sym") and "<module" not in p[2]:
                return self.loc(p)
            if p and best is None and not p[0].startswith("<") and "<module" not in p[2]:
                best = p
            q.extend(children(x))
            if len(seen) > 3000:
                break
        if best:
            return self.loc(best)
        fs = [f for f in o.it.inlined if not f.startswith("client.")]
        return "function %s" % fs[0] if fs else "module"

    @staticmethod
    def loc(p):
        return "%s:%s (%s)" % (p[0].split("/repo/")[-1], p[1], p[2])

    # ------------------------------------------------------------- rules
    def same(self, label, code, spec, params=None, assume=None, opts=None, raises="all", value=True, post=None,
             distinct=(), vocab=None, sparams=None, events=None, facts=None, rule="value equality with the reference"):
        """the code computes the reference's value, and raises exactly when the reference does

        raises: 'all' (same condition), a tuple of exception names whose conditions must agree, 'atleast' (must raise whenever
        the reference does) or None (not compared)."""
        co = self.run(code, params, assume=assume, opts=opts)
        so = self.run(spec, sparams or params, assume=assume, opts=None if opts is None else {k: v for k, v in opts.items()}, count=False)
        return self.outcome(label, co, so, raises=raises, value=value, post=post, distinct=distinct, vocab=vocab, facts=facts, rule=rule)

    def outcome(self, label, co, so, raises="all", value=True, post=None, distinct=(), vocab=None, facts=None,
                rule="value equality with the reference"):
        if so.unsup:
            return self.add(rule, label, "undecided", "reference not analysable: " + so.unsup, o=co)
        if co.unsup:
            return self.add(rule, label, "undecided", "not analysable: " + co.unsup, o=co)
        post = post or (lambda t: t)
        f0 = Facts()
        for l in co.base:
            f0.add(post(l))
        for l in (facts or ()):
            f0.add(post(l))
        distinct = frozenset(distinct)
        # errors any run of the code hits that the reference cannot
        if raises is not None:
            if raises == "all":
                cr, sr = co.raise_cond(), so.raise_cond()
            elif raises == "atleast":
                cr, sr = co.raise_cond(), so.raise_cond()
                cr = or_(cr, not_(sr))
                sr = TRUE
            else:
                names = set(raises)
                cr, sr = co.raise_cond(names), so.raise_cond(names)
            cr, sr = post(cr), post(sr)
            voc = (equal.tokens(sr) | (equal.tokens(so.value) if so.value is not None else frozenset())) if vocab is None else vocab
            r = equal.compare(cr, sr, f0, vocab=voc, distinct=distinct)
            if r.status != "eq":
                site = self.raise_site(co)
                st = "violated" if r.status == "diff" else "undecided"
                ob = self.add(rule, label + " [raise condition]", st,
                              "%sraises under %s; required: %s; differing case: %s" % (r.why + ": " if r.why and st == "undecided" else "", S(cr), S(sr), P(r)), site, co)
                if st == "violated":
                    return ob
            else:
                self.add(rule, label + " [raise condition]", "discharged", o=co)
        if not value:
            return None
        pc = and_(post(co.pc), post(so.pc))
        f = f0.copy()
        f.add(pc)
        if not f.consistent():
            return self.add(rule, label, "discharged", "no returning path in common", o=co)
        if co.value is None or so.value is None:
            if so.value is None and co.value is None:
                return self.add(rule, label, "discharged", "never returns", o=co)
            return self.add(rule, label, "violated" if raises == "all" else "undecided",
                            "one side never returns: code %s, reference %s" % (S(co.value), S(so.value)), self.raise_site(co), co)
        a, b = post(co.value), post(so.value)
        voc = (equal.tokens(b) | equal.tokens(so.value)) if vocab is None else vocab
        r = equal.compare(a, b, f, vocab=voc, distinct=distinct)
        if r.status == "eq":
            return self.add(rule, label, "discharged", o=co)
        if r.status == "diff":
            return self.add(rule, label, "violated", "computes %s, required %s%s" % (S(r.a), S(r.b), P(r)),
                            self.where(co, r.a), co)
        return self.add(rule, label, "undecided", "%s: %s vs %s%s" % (r.why, S(r.a), S(r.b), P(r)), self.where(co, r.a), co)

    def raise_site(self, o):
        for g, e, site, stack in o.raises:
            fs = [f for f in stack if not f.startswith("client")]
            if fs:
                return "%s raised in %s" % (harness.excname(e), " <- ".join(reversed(fs[-3:])))
        return "function %s" % next((f for f in (o.it.inlined if o.it else ()) if not f.startswith("client.")), "?")

    def law(self, label, text, params=None, assume=None, opts=None, post=None, distinct=(), raises=None, vocab=None,
            rule="both sides of the law have one normal form", facts=None, entry="client"):
        """the snippet returns (left, right): they must be the same value on every path"""
        o = self.run(text, params, assume=assume, opts=opts, entry=entry)
        if o.unsup:
            return self.add(rule, label, "undecided", "not analysable: " + o.unsup, o=o)
        post = post or (lambda t: t)
        if o.value is None:
            return self.add(rule, label, "violated" if o.raises else "undecided", "the call never returns", self.raise_site(o), o)
        f = Facts()
        for l in o.base:
            f.add(post(l))
        for l in (facts or ()):
            f.add(post(l))
        f.add(post(o.pc))
        v = post(o.value)
        pairs = split_pairs(v)
        if pairs is None:
            return self.add(rule, label, "undecided", "unexpected shape %s" % S(v), o=o)
        worst = None
        for a, b in pairs:
            voc = equal.tokens(a) & equal.tokens(b) if vocab is None else vocab
            r = equal.compare(a, b, f, vocab=equal.tokens(b) if vocab is None else voc, distinct=frozenset(distinct))
            if r.status == "diff":
                return self.add(rule, label, "violated", "left side %s, right side %s%s" % (S(r.a), S(r.b), P(r)),
                                self.where(o, r.a), o)
            if r.status == "unknown":
                worst = r
        if worst is not None:
            return self.add(rule, label, "undecided", "%s: %s vs %s%s" % (worst.why, S(worst.a), S(worst.b), P(worst)),
                            self.where(o, worst.a), o)
        return self.add(rule, label, "discharged", o=o)

    def either(self, *attempts):
        """decide one obligation by several analyses of different depth: any of them discharges it, else the strongest report stands"""
        best = None
        for f in attempts:
            n = len(self.obs)
            f()
            new = self.obs[n:]
            del self.obs[n:]
            if all(o.status == "discharged" for o in new):
                self.obs.extend(new)
                return
            if best is None or not any(o.status == "violated" for o in best) or any(o.status == "violated" for o in new):
                best = new
        self.obs.extend(best)

    def holds(self, rule, label, ok, detail="", construct="", o=None):
        """ok: True / False / None (undecided)"""
        return self.add(rule, label, "discharged" if ok else "undecided" if ok is None else "violated",
                        "" if ok else detail, construct, o)


def split_pairs(v):
    """list of (a, b) from (a, b) or ((a, b), (c, d), ...) or guarded forms of them"""
    if v.op == "ite":
        x, y = split_pairs(v.args[1]), split_pairs(v.args[2])
        if x is None or y is None or len(x) != len(y):
            return None
        return [(ite(v.args[0], a, c), ite(v.args[0], b, d)) for (a, b), (c, d) in zip(x, y)]
    if v.op in ("tuple", "list") and v.args[0] and all(x.op == "tuple" and len(x.args[0]) == 2 for x in v.args[0]):
        return [tuple(x.args[0]) for x in v.args[0]]
    if v.op == "tuple" and len(v.args[0]) == 2:
        return [tuple(v.args[0])]
    return None


def S(t, n=220):
    if t is None:
        return "nothing"
    s = show(t, 7)
    return s if len(s) <= n else s[:n] + "..."


def P(r):
    return (" when " + " and ".join(S(l, 100) for l in r.facts[:4])) if r.facts else ""
