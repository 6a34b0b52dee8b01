"""Entailment of integer inequalities: Gaussian elimination for equalities, then a bounded
Fourier-Motzkin elimination.  Used only to answer `do these facts imply x >= 0` inside the numeric
abstract domain; gives up (answers no) when the system grows too large."""
from math import gcd
from .terms import *

LIMIT = 260


def _norm(d, c):
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
        if g == 1:
            return d, c
    if g > 1:
        d = {k: v // g for k, v in d.items()}
        c = c // g  # floor: integer tightening
    return d, c


def _infeasible(cons, eqs):
    """cons: list of (dict, c) meaning sum + c >= 0; eqs: sum + c == 0.  True if certainly unsat."""
    eqs = [(dict(d), c) for d, c in eqs]
    cons = [(dict(d), c) for d, c in cons]
    # eliminate equalities
    while eqs:
        d, c = eqs.pop()
        d = {k: v for k, v in d.items() if v}
        if not d:
            if c != 0:
                return True
            continue
        # pick a unit coefficient if any
        piv = None
        for k, v in d.items():
            if abs(v) == 1:
                piv = k
                break
        if piv is None:
            piv = min(d, key=lambda k: abs(d[k]))
        pv = d[piv]

        def elim(e, ec, keep_sign):
            f = e.get(piv, 0)
            if f == 0:
                return e, ec
            # e*|pv| - d*f*sign(pv)
            s = 1 if pv > 0 else -1
            m = abs(pv)
            r = {}
            for k, v in e.items():
                r[k] = v * m
            for k, v in d.items():
                r[k] = r.get(k, 0) - v * f * s
            r = {k: v for k, v in r.items() if v}
            return r, ec * m - c * f * s

        eqs = [elim(e, ec, 0) for e, ec in eqs]
        cons = [elim(e, ec, 1) for e, ec in cons]
    # dedupe: keep the tightest per coefficient vector
    def dedupe(cs):
        best = {}
        for d, c in cs:
            d = {k: v for k, v in d.items() if v}
            if not d:
                if c < 0:
                    return None
                continue
            d, c = _norm(d, c)
            key = tuple(sorted(((k.id, v) for k, v in d.items())))
            o = best.get(key)
            if o is None or c < o[1]:
                best[key] = (d, c)
        return list(best.values())

    cons = dedupe(cons)
    if cons is None:
        return True
    while cons:
        pos, ngs = {}, {}
        for d, c in cons:
            for k, v in d.items():
                if v > 0:
                    pos[k] = pos.get(k, 0) + 1
                else:
                    ngs[k] = ngs.get(k, 0) + 1
        vars_ = set(pos) | set(ngs)
        best, bk = None, None
        for k in vars_:
            p, q = pos.get(k, 0), ngs.get(k, 0)
            cost = p * q - p - q
            if best is None or cost < best or (cost == best and k.id < bk.id):
                best, bk = cost, k
        ps = [x for x in cons if x[0].get(bk, 0) > 0]
        ns = [x for x in cons if x[0].get(bk, 0) < 0]
        rest = [x for x in cons if x[0].get(bk, 0) == 0]
        if len(ps) * len(ns) + len(rest) > LIMIT * 4:
            return False
        for d1, c1 in ps:
            for d2, c2 in ns:
                a, b = d1[bk], -d2[bk]
                r = {}
                for k, v in d1.items():
                    r[k] = v * b
                for k, v in d2.items():
                    r[k] = r.get(k, 0) + v * a
                r.pop(bk, None)
                rest.append((r, c1 * b + c2 * a))
        cons = dedupe(rest)
        if cons is None:
            return True
        if len(cons) > LIMIT:
            return False
    return False


def to_con(x):
    return dict(x.a[1]), x.a[0]
