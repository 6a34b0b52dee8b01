"""Fixpoints at loop heads.

A loop head is described by a memory whose changing parts are fresh symbols (phi).  Three passes:
  shape      which parts change (generalisation of entry and back-edge memories),
  relations  affine equalities between integer phis, lengths / measures of sequence phis and prefix
             sums (null space of the per-iteration deltas), used to eliminate phis,
  bounds     inequality candidates kept while inductive.
The body is finally run once more from the resulting head state; its exits are the loop's exits.
"""
from fractions import Fraction
from math import gcd
from .terms import *
from .dom import *


class Phi(object):
    __slots__ = ("kind", "sym", "term", "ty", "n")


class LoopRun(object):
    MAXROUND = 12

    def __init__(self, eng, key, entry, body, where=None, cut=0):
        self.cut = cut      # entries already split so often
        self.eng = eng
        self.d = eng.d
        self.key = key
        self.entry = entry
        self.body = body
        self.where = where
        self.phis = {}      # symbol (atom/base/sym/bv) -> Phi
        self.nphi = 0
        self.pat = dict(entry.mem)
        self.var = {}
        self.marklog = False

    # -------------------------------------------------------------- phis
    def new_phi(self, kind, ty, path):
        n = self.nphi
        self.nphi += 1
        k = ("phi", self.key, path, n)
        ph = Phi()
        ph.kind, ph.ty, ph.n = kind, ty, n
        if kind == "int":
            ph.sym = atom("v", mkkey(k))
            ph.term = ia(ph.sym)
        elif kind == "seq":
            ph.sym = base(ty, k)
            ph.term = self.d.whole(ph.sym)
        elif kind == "bool":
            ph.sym = ph.term = mk("bv", k)
        else:
            ph.sym = ph.term = mk("sym", ty, k)
        self.phis[ph.sym] = ph
        return ph.term

    def as_phi(self, t):
        """the Phi a term is exactly, or None"""
        if t.k == "int":
            if t.a[0] == 0 and len(t.a[1]) == 1 and t.a[1][0][1] == 1:
                return self.phis.get(t.a[1][0][0])
            return None
        if t.k == "seq":
            if len(t.a[0]) == 1 and t.a[0][0].k == "sub":
                s = t.a[0][0]
                if s.a[0] in self.phis and s.a[1] is ZERO:
                    return self.phis[s.a[0]]
            return None
        return self.phis.get(t)

    def has_phi(self, t, memo=None):
        if memo is None:
            memo = {}
        if isinstance(t, tuple):
            return any(self.has_phi(x, memo) for x in t)
        if not isinstance(t, T):
            return False
        r = memo.get(t)
        if r is None:
            if t in self.phis:
                r = True
            else:
                r = any(self.has_phi(x, memo) for x in t.a)
            memo[t] = r
        return r

    # -------------------------------------------------------------- generalise / match
    BOOLK = ("tt", "ff", "bv", "ge", "eq0", "not", "and", "or", "isvar", "eqv", "eqd")

    def elem_ty(self, *vs):
        for v in vs:
            for s in v.a[0]:
                if s.k == "sub":
                    return s.a[0].a[0]
                if s.k == "lit":
                    return self.d.p.charty
        for v in vs:
            for s in v.a[0]:
                if s.k == "one" and s.a[0].k in ("sym", "agg"):
                    return s.a[0].a[0]
                if s.k == "one" and s.a[0].k == "ref":
                    x = s.a[0].a[0]
                    if x.k in ("sym", "agg"):
                        for i, t in enumerate(self.d.p.types):
                            if t["k"] == "ref" and t["elem"] == x.a[0] and not t["mut"]:
                                return i
        return None

    def gen(self, p, v, path, ps, vs):
        """generalise pattern p so that it covers v.  ps/vs: states giving variant information"""
        if p is v:
            return p
        if p.k == "undef" or v.k == "undef":
            return UNDEF
        ph = self.as_phi(p)
        if ph is not None:
            if ph.kind == "sym":
                self.widen_var(ph, v, vs)
            return p
        if p.k == "int" and v.k == "int":
            return self.new_phi("int", None, path)
        if p.k in self.BOOLK and v.k in self.BOOLK:
            return self.new_phi("bool", None, path)
        if p.k == "ref" and v.k == "ref":
            return ref(self.gen(p.a[0], v.a[0], path + ("*",), ps, vs))
        if p.k == "mem" and v.k == "mem":
            return mk("mem", self.gen(p.a[0], v.a[0], path, ps, vs))
        if p.k == "mref" and v.k == "mref" and p.a[0] == v.a[0] and len(p.a[1]) == len(v.a[1]):
            proj = []
            for i, (x, y) in enumerate(zip(p.a[1], v.a[1])):
                if x == y:
                    proj.append(x)
                elif x[0] == "sidx" and y[0] == "sidx":
                    proj.append(("sidx", self.gen(x[1], y[1], path + (i,), ps, vs)))
                else:
                    raise Undecided("loop-carried reference")
            return mk("mref", p.a[0], tuple(proj))
        if p.k == "it" and v.k == "it" and p.a[0] == v.a[0]:
            return mk("it", p.a[0], *[
                self.gen(x, y, path + (i,), ps, vs) if isinstance(x, T) and isinstance(y, T) else self.same(x, y)
                for i, (x, y) in enumerate(zip(p.a[1:], v.a[1:]))])
        if p.k == "seq" and v.k == "seq":
            return self.gen_seq(p, v, path, ps, vs)
        if p.k in ("agg", "sym") and v.k in ("agg", "sym"):
            prog = self.d.p
            tyi = p.a[0]
            if prog.is_enum(tyi):
                if p.k == "agg" and v.k == "agg" and p.a[1] == v.a[1]:
                    return mk("agg", tyi, p.a[1], tuple(
                        self.gen(x, y, path + (i,), ps, vs) for i, (x, y) in enumerate(zip(p.a[2], v.a[2]))))
                t = self.new_phi("sym", tyi, path)
                ph = self.phis[t]
                self.var[t] = frozenset()
                self.widen_var(ph, p, ps)
                self.widen_var(ph, v, vs)
                return t
            n = len(prog.field_tys(tyi))
            if p.k == "sym" and v.k == "sym":
                return self.new_phi("sym", tyi, path)
            if n == 0:
                return p
            return mk("agg", tyi, 0, tuple(
                self.gen(self.d.proj(p, i), self.d.proj(v, i), path + (i,), ps, vs) for i in range(n)))
        raise Undecided("loop-carried %s/%s" % (p.k, v.k))

    def same(self, x, y):
        if x != y:
            raise Undecided("loop-carried structure")
        return x

    def widen_var(self, ph, v, st):
        vs = st.variants(v) if v.k in ("agg", "sym") and self.d.p.is_enum(v.a[0]) else None
        if vs is None:
            return
        self.var[ph.sym] = self.var.get(ph.sym, frozenset()) | vs

    def gen_seq(self, p, v, path, ps, vs):
        a, b = p.a[0], v.a[0]
        if len(a) == len(b) and all(
                x.k == y.k and (x.k != "sub" or x.a[0] is y.a[0]) and (x.k != "lit" or x is y) for x, y in zip(a, b)):
            out = []
            for i, (x, y) in enumerate(zip(a, b)):
                if x is y:
                    out.append(x)
                elif x.k == "one":
                    out.append(mk("one", self.gen(x.a[0], y.a[0], path + (i,), ps, vs)))
                else:
                    out.append(mk("sub", x.a[0], self.gen(x.a[1], y.a[1], path + (i, "lo"), ps, vs),
                                  self.gen(x.a[2], y.a[2], path + (i, "hi"), ps, vs)))
            return mk("seq", tuple(out))
        e = self.elem_ty(v, p)
        if e is None:
            raise Undecided("loop-carried sequence of unknown element type")
        return self.new_phi("seq", e, path)

    def match(self, p, v, B, st):
        """bind the phis of pattern p so that it equals v; False if impossible"""
        ph = self.as_phi(p)
        if ph is not None:
            if v.k == "undef":
                return False
            if ph.kind == "sym":
                if ph.sym in self.var and self.d.p.is_enum(v.a[0]) and not st.variants(v) <= self.var[ph.sym]:
                    return False
                if v.k not in ("agg", "sym"):
                    return False
            elif ph.kind == "int" and v.k != "int" or ph.kind == "seq" and v.k != "seq":
                return False
            elif ph.kind == "bool" and v.k not in self.BOOLK:
                return False
            old = B.get(ph.sym)
            if old is not None and old is not v:
                return False
            B[ph.sym] = v
            return True
        if p is v:
            self.bind_self(p, B)
            return True
        if p.k == "undef":
            return True
        if p.k != v.k:
            if p.k == "agg" and v.k == "sym" and not self.d.p.is_enum(p.a[0]):
                return all(self.match(x, self.d.proj(v, i), B, st) for i, x in enumerate(p.a[2]))
            if p.k == "sym" and v.k == "agg" and not self.has_phi(p):
                return st.same(p, v)
            return False
        k = p.k
        if k == "int":
            return not self.has_phi(p) and st.eq(p, v)
        if k in ("ref", "mem"):
            return self.match(p.a[0], v.a[0], B, st)
        if k == "agg":
            return p.a[0] == v.a[0] and p.a[1] == v.a[1] and len(p.a[2]) == len(v.a[2]) and all(
                self.match(x, y, B, st) for x, y in zip(p.a[2], v.a[2]))
        if k == "it":
            if p.a[0] != v.a[0] or len(p.a) != len(v.a):
                return False
            return all(self.match(x, y, B, st) if isinstance(x, T) and isinstance(y, T) else x == y
                       for x, y in zip(p.a[1:], v.a[1:]))
        if k == "seq":
            a, b = p.a[0], v.a[0]
            if len(a) != len(b):
                return not self.has_phi(p) and st.seq_eq(p, v)
            for x, y in zip(a, b):
                if x is y:
                    self.bind_self(x, B)
                    continue
                if x.k != y.k or x.k == "lit":
                    return False
                if x.k == "one":
                    if not self.match(x.a[0], y.a[0], B, st):
                        return False
                else:
                    if x.a[0] is not y.a[0]:
                        return False
                    if not self.match(x.a[1], y.a[1], B, st) or not self.match(x.a[2], y.a[2], B, st):
                        return False
            return True
        if k == "mref":
            if p.a[0] != v.a[0] or len(p.a[1]) != len(v.a[1]):
                return False
            for x, y in zip(p.a[1], v.a[1]):
                if x == y:
                    for z in x:
                        if isinstance(z, T):
                            self.bind_self(z, B)
                    continue
                if x[0] != "sidx" or y[0] != "sidx" or not self.match(x[1], y[1], B, st):
                    return False
            return True
        if k in self.BOOLK:
            return False
        if k == "sym":
            return not self.has_phi(p) and st.same(p, v)
        return False

    def bind_self(self, t, B):
        if isinstance(t, tuple):
            for x in t:
                self.bind_self(x, B)
            return
        if not isinstance(t, T):
            return
        if t in self.phis:
            B.setdefault(t, self.phis[t].term)
            return
        if self.has_phi(t):
            for x in t.a:
                self.bind_self(x, B)

    def bindings(self, st, pat=None):
        B = {}
        for r, p in (pat or self.pat).items():
            v = st.mem.get(r, UNDEF)
            if not self.match(p, v, B, st):
                return None
        return B

    # -------------------------------------------------------------- head state
    def sub(self, t, m):
        return self.d.subst(t, m) if m else t

    def head(self, E, eqs, facts):
        """head state from the current description"""
        H = self.entry.copy()
        H._pc = {}
        H.mem = {r: self.sub(p, E) for r, p in self.pat.items()}
        for s, vs in self.var.items():
            if s not in E:
                H.var[s] = vs
        if eqs:
            H.eqs = H.eqs | frozenset(x for x in (self.sub(e, E) for e in eqs) if not is_const(x))
        if facts:
            H.facts = H.facts | frozenset(x for x in (self.sub(f, E) for f in facts) if not is_const(x))
        if self.marklog:
            H.log = H.log + (("loop", self.key),)
        return H

    def run_body(self, H, final=False):
        eng = self.eng
        saved = eng.rec_panics
        if not final:
            eng.rec_panics = False
            eng.quiet += 1
        try:
            backs, exits = self.body(H)
            backs, exits = self.leaving(backs, exits)
            if len(backs) > 1:  # a round the facts rule out says nothing about the loop
                backs = [b for b in backs if b.feasible()]
            return backs, exits
        finally:
            eng.rec_panics = saved
            if not final:
                eng.quiet -= 1

    def leaving(self, backs, exits):
        """a round that ends by telling the next to leave (a flag lowered, an option emptied) leaves"""
        keep, out = [], list(exits)
        for b in backs:
            if any(self.lowered(self.entry.mem.get(r), b.mem.get(r)) for r in self.pat):
                np, nl = len(self.eng.panics), len(self.eng.loop_log)
                again, ex = self.body(b.copy())
                if not [z for z in again if z.feasible()] and len(set(x[0] for x in ex)) == 1:
                    out.extend(ex)
                    continue
                del self.eng.panics[np:]
                del self.eng.loop_log[nl:]
            keep.append(b)
        return keep, out

    def lowered(self, p, v):
        if p is None or v is None or p.k != v.k:
            return p is not None and v is not None and {p.k, v.k} == {"tt", "ff"}
        return p.k == "agg" and p.a[0] == v.a[0] and p.a[1] != v.a[1] and not v.a[2] and self.d.p.is_enum(p.a[0])

    # -------------------------------------------------------------- driver
    def small(self):
        """iterates over a short explicit sequence: unroll instead"""
        def scan(v, d=0):
            if not isinstance(v, T) or d > 4:
                return False
            if v.k == "it":
                if v.a[0] == "seq":
                    n = 0
                    for s in v.a[1].a[0]:
                        if s.k == "one":
                            n += 1
                        elif s.k == "lit":
                            n += len(s.a[0])
                        elif s.k == "sub" and is_const(sub(s.a[2], s.a[1])):
                            n += sub(s.a[2], s.a[1]).a[0]
                        else:
                            return False
                    return n <= 6
                return any(scan(x, d + 1) for x in v.a[1:])
            if v.k == "agg" and self.eng.p.adt_name(v.a[0]) == "Range":
                z = sub(v.a[2][1], v.a[2][0]) if v.a[2][0].k == "int" and v.a[2][1].k == "int" else None
                return z is not None and is_const(z) and z.a[0] <= 6
            return False
        return any(scan(v) for v in self.entry.mem.values())

    def unroll(self):
        exits = []
        cur = [self.entry.copy()]
        for _ in range(8):
            nxt = []
            for s in cur:
                b, e = self.body(s)
                nxt.extend(b)
                exits.extend(e)
            if not nxt:
                return exits
            cur = nxt
        return None

    def run(self):
        eng = self.eng
        if self.small():
            np, nl = len(eng.panics), len(eng.loop_log)
            r = self.unroll()
            if r is not None:
                return r
            del eng.panics[np:]
            del eng.loop_log[nl:]
        # ---- shape
        memo = eng.loop_memo.get(self.key)
        for rnd in range(self.MAXROUND):
            H = self.head({}, (), ())
            backs, exits = self.run_body(H)
            if rnd == 0 and not backs:
                _, exits = self.run_body(self.head({}, (), ()), final=True)
                return exits
            changed = False
            for b in backs:
                if b.log != H.log and not self.marklog:
                    self.marklog = True
                    changed = True
                for r in list(self.pat):
                    p = self.pat[r]
                    if r not in b.mem:
                        if r[0] != "t":
                            del self.pat[r]
                        continue
                    v = b.mem[r]
                    before = dict(self.var)
                    if self.match(p, v, {}, b):
                        continue
                    np_ = self.gen(p, v, (str(r),), H, b)
                    if np_ is not p or self.var != before:
                        self.pat[r] = np_
                        changed = True
            if not changed:
                break
        else:
            raise Undecided("loop shape did not stabilise at %s" % (self.where,))
        Be = self.bindings(self.entry)
        Bs = [self.bindings(b) for b in backs]
        if Be is None or any(x is None for x in Bs):
            raise Undecided("loop pattern mismatch at %s" % (self.where,))
        for k in [k for k in self.phis if k not in Be or any(k not in B for B in Bs)]:
            del self.phis[k]
        return self.solve(H, Be, backs, Bs)

    def solve(self, H, Be, backs, Bs, again=True):
        eng = self.eng
        # ---- relations
        E, eqs = self.relations(H, Be, backs, Bs)
        # ---- bounds
        cands = self.candidates(H, Be, backs, Bs, E)
        rounds = len(backs)
        ent = []
        for g in cands:
            try:
                if self.entry.entails(self.d.subst(self.d.subst(g, E), Be)):
                    ent.append(g)
            except Undecided:
                pass
        for g in self.undecided_bounds(H, [g for g in cands if g not in ent], Be, E):
            if not self.holds_on(g, H, E, eqs, ent):
                continue
            e = self.d.subst(self.d.subst(g, E), Be)
            exits = []
            for x in (e, addc(neg(e), -1)):
                for s in self.entry.copy().assume(mk("ge", x)):
                    exits.extend(LoopRun(eng, self.key, s, self.body, self.where, self.cut + 1).run())
            return exits
        cands = ent
        for rnd in range(10):
            H = self.head(E, eqs, cands)
            backs, exits = self.run_body(H)
            keep = []
            Bs = []
            for b in backs:
                B = self.bindings(b, {r: p for r, p in self.pat.items()})
                if B is None:
                    # eliminated phis: match against the raw pattern through their values
                    raise Undecided("loop pattern mismatch at %s" % (self.where,))
                Bs.append(B)
            for g in cands:
                ok = True
                for b, B in zip(backs, Bs):
                    try:
                        if not b.entails(self.d.subst(g, B)):
                            ok = False
                            break
                    except Undecided:
                        ok = False
                        break
                if ok:
                    keep.append(g)
            if len(keep) == len(cands):
                break
            cands = keep
        else:
            cands = []
        if again and cands and len(backs) < rounds and any(k not in E for k in self.phis):
            # the bounds rule out some of the rounds: look for relations among the others
            H = self.head({}, eqs, cands)
            backs, _ = self.run_body(H)
            Bs = [self.bindings(b) for b in backs]
            if len(backs) < rounds and not any(x is None for x in Bs):
                return self.solve(H, Be, backs, Bs, False)
        H = self.head(E, eqs, cands)
        backs, exits = self.run_body(H, final=True)
        if eng.quiet == 0:
            Bs = [self.bindings(b) for b in backs]
            eng.loop_log.append({"key": self.key, "where": self.where, "head": H, "entry": self.entry, "Be": Be,
                                 "backs": list(zip(backs, Bs)), "E": E, "phis": self.phis, "pat": self.pat,
                                 "cands": cands, "eqs": eqs})
        try:
            done = self.searched(backs, [self.bindings(b) for b in backs], Be, E, exits)
            if eng.quiet == 0:
                eng.loop_log[-1]["searched"] = done
        except Undecided:
            pass
        return exits

    def searched(self, backs, Bs, Be, E, exits):
        """a loop which goes through a list as long as the elements differ from something: where it has reached
        the end, nothing in the list equals it"""
        d = self.d
        done = False
        for ph in self.phis.values():
            x = ph.sym
            lo = Be.get(x)
            if ph.kind != "int" or x in E or lo is None or self.has_phi(lo) or not backs or any(B is None for B in Bs):
                continue
            step = {B.get(x) for B in Bs}
            up = step == {addc(ia(x), 1)}
            if not up and step != {addc(ia(x), -1)}:
                continue
            fs = None
            for b in backs:
                here = frozenset(c for c, v in b.bools.items() if v is False and c.k == "eqv")
                fs = here if fs is None else fs & here
            for c in fs or ():
                for u, w in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
                    typed = w.k == "sym" and u.k == "sym" and isinstance(w.a[1], tuple) and w.a[1][0] == "mtype"
                    e = d.as_elem(w.a[1][1] if typed else w)
                    if e is None or e[1] is not (ia(x) if up else addc(ia(x), -1)) or self.has_phi(e[0]) or self.has_phi(u):
                        continue
                    n = d.blen(e[0])
                    for _, s in exits:
                        end = ia(x)
                        for z in (ZERO, n):
                            if s.eq(end, z):
                                end = z
                        seg = mk("sub", e[0], lo, end) if up else mk("sub", e[0], end, lo)
                        done = True
                        whole = seg.a[1] is ZERO and seg.a[2] is n
                        if typed:
                            if not whole:
                                continue
                            k = mk("bv", ("haskey", d.seq([seg]), u, mk("sym", w.a[0], ("mtype", self.generic(w.a[1][1])))))
                        else:
                            k = mk("bv", ("contains", seg, u))
                        if k not in s.bools:
                            s.bools = dict(s.bools)
                            s.bools[k] = False
        return done

    def undecided_bounds(self, H, cands, Be, E):
        """a bound on a counter that comes from the loop's own condition but may or may not hold on entry"""
        out = []
        if self.cut >= 1:
            return out
        for g in cands:
            xs = [(a, k) for a, k in g.a[1] if a in self.phis]
            if len(xs) != 1 or xs[0][1] != -1 or len(g.a[1]) < 2:
                continue
            try:
                e = self.d.subst(self.d.subst(g, E), Be)
            except Undecided:
                continue
            if is_const(e) or self.entry.entails(addc(neg(e), -1)):
                continue
            if len(self.entry.copy().assume(mk("ge", e))) and len(self.entry.copy().assume(mk("ge", addc(neg(e), -1)))):
                out.append(g)
        # the tightest of the bounds that differ by a constant comes first
        out = out[::-1]
        at = {}
        for i, g in enumerate(out):
            at.setdefault(g.a[1], i)
        return sorted(out, key=lambda g: (at[g.a[1]], g.a[0]))[:4]

    def holds_on(self, g, H, E, eqs, ent):
        backs, _ = self.run_body(self.head(E, eqs, ent + [g]))
        for b in backs:
            B = self.bindings(b, dict(self.pat))
            try:
                if B is None or not b.entails(self.d.subst(g, B)):
                    return False
            except Undecided:
                return False
        return True

    # -------------------------------------------------------------- relations
    MEAS = {}

    def measures(self, ety):
        p = self.d.p
        if ety == p.node_ty:
            return ("size",)
        if ety == p.charty:
            return ("U", "B")
        return ()

    def relations(self, H, Be, backs, Bs):
        d = self.d
        ints = [ph for ph in self.phis.values() if ph.kind == "int"]
        seqs = [ph for ph in self.phis.values() if ph.kind == "seq"]
        dims = []  # (rank, name, expr)
        index_use = {}

        def scan(t, seen):
            """find phis used as positions in bases"""
            if isinstance(t, tuple):
                for x in t:
                    scan(x, seen)
                return
            if not isinstance(t, T) or t in seen:
                return
            seen.add(t)
            if t.k == "sub" and t.a[0] not in self.phis and not self.has_phi(t.a[0]):
                for x in t.a[1:]:
                    for a, c in x.a[1]:
                        if a in self.phis and c == 1:
                            index_use.setdefault((a, t.a[0]), True)
            if t.k == "sym" and isinstance(t.a[1], tuple) and t.a[1] and t.a[1][0] == "elem":
                b, x = t.a[1][1], t.a[1][2]
                if isinstance(b, T) and b.k == "base" and not self.has_phi(b):
                    for a, c in x.a[1]:
                        if a in self.phis and c == 1:
                            index_use.setdefault((a, b), True)
            for x in t.a:
                scan(x, seen)

        seen = set()
        for p in self.pat.values():
            scan(p, seen)
        for b, B in zip(backs, Bs):
            for v in B.values():
                scan(v, seen)
            for f in b.facts:
                scan(f, seen)
        idx = set(a for a, _ in index_use)
        ncol = 0
        for ph in ints:
            dims.append((3 if ph.sym in idx else 0, ph.n, ia(ph.sym), ph))
        for ph in seqs:
            dims.append((1, ph.n, d.blen(ph.sym), None))
            for m in self.measures(ph.ty):
                dims.append((1, ph.n, d.total(ph.sym, m), None))
        for (a, b) in sorted(index_use, key=lambda z: (z[0].id, z[1].id)):
            for m in self.measures(b.a[0]):
                dims.append((2, 0, d.P(b, m, ia(a)), None))
        dims.sort(key=lambda x: x[0])
        rows = []
        usable = [True] * len(dims)
        deltas = []
        for b, B in zip(backs, Bs):
            eqsys = None
            ds = []
            for j, (_, _, e, _) in enumerate(dims):
                try:
                    ds.append(sub(d.subst(e, B), e))
                except Undecided:
                    usable[j] = False
                    ds.append(ZERO)
            ds = self.reduce(b, ds)
            deltas.append(ds)
            atoms = sorted(set(a for x in ds for a, _ in x.a[1]), key=lambda z: z.id)
            rows.append([x.a[0] for x in ds])
            for a in atoms:
                rows.append([dict(x.a[1]).get(a, 0) for x in ds])
        n = len(dims)
        for j in range(n):
            if not usable[j]:
                rows.append([1 if i == j else 0 for i in range(n)])
        null = nullspace(rows, n)
        R = rref(null, n)
        E, eqs = {}, []
        for piv, row in R:
            rel = ZERO
            den = 1
            for x in row:
                den = den * x.denominator // gcd(den, x.denominator)
            ok = True
            rhs = ZERO
            for j, x in enumerate(row):
                c = int(x * den)
                if c:
                    e = dims[j][2]
                    try:
                        e0 = d.subst(e, Be)
                    except Undecided:
                        ok = False
                        break
                    rel = add(rel, scale(e, c))
                    rhs = add(rhs, scale(e0, c))
            if not ok:
                continue
            ph = dims[piv][3]
            if ph is not None and den == 1:
                # phi = rhs - (rel - phi)
                E[ph.sym] = sub(rhs, sub(rel, ia(ph.sym)))
            else:
                eqs.append(sub(rel, rhs))
        # eliminate transitively
        for _ in range(4):
            E2 = {k: self.sub(v, {x: y for x, y in E.items() if x is not k}) for k, v in E.items()}
            if E2 == E:
                break
            E = E2
        # sequences that grow by successive elements of another sequence
        for ph in seqs:
            g = self.growth(ph, Be, backs, Bs)
            if g is not None:
                E[ph.sym] = self.sub(g, {k: v for k, v in E.items() if k is not ph.sym})
        for ph in self.phis.values():
            if ph.kind == "sym" and ph.sym not in E:
                g = self.folded(ph, Be, Bs)
                if g is not None:
                    E[ph.sym] = self.sub(g, {k: v for k, v in E.items() if k is not ph.sym})
        eqs = [e for e in (self.sub(x, E) for x in eqs) if not is_const(e)]
        return E, eqs

    def folded(self, ph, Be, Bs):
        """X = fold(X0, f, v[i0..i]) when each iteration sets X to f(X, v[i]) and steps i"""
        if not Bs or any(B[ph.sym] is not Bs[0][ph.sym] for B in Bs):
            return None
        v = Bs[0][ph.sym]
        acc = mk("sym", ph.ty, ("acc",))
        w = self.d.subst(v, {ph.sym: acc})
        x = self.find_elem(w)
        if x is None:
            return None
        bs, ix, el = x
        if len(ix.a[1]) != 1 or ix.a[1][0][1] != 1:
            return None
        a = ix.a[1][0][0]
        if a not in self.phis or any(B.get(a) is not addc(ia(a), 1) for B in Bs):
            return None
        gterm = self.generic(el)
        tmpl = self.d.subst(w, {el if el.k != "int" else el.a[1][0][0]: gterm if gterm.k != "int" else gterm})
        if self.has_phi(tmpl):
            return None
        return mk("sym", ph.ty, ("fold", Be[ph.sym], tmpl, bs, addc(Be[a], ix.a[0]), ix))

    def growth(self, ph, Be, backs, Bs):
        """S = S0 ++ v[i0..i] when each iteration appends exactly (a function of) v[i] and steps i"""
        d = self.d
        got = None
        whole = mk("sub", ph.sym, ZERO, d.blen(ph.sym))
        for B in Bs:
            v = B[ph.sym]
            segs = v.a[0]
            if len(segs) != 2 or segs[0] is not whole:
                return None
            s = segs[1]
            if s.k == "sub":
                if self.has_phi(s.a[0]) or s.a[2] is not addc(s.a[1], 1):
                    return None
                bs, ix, tmpl = s.a[0], s.a[1], None
            elif s.k == "one":
                x = self.find_elem(s.a[0])
                if x is None:
                    return None
                bs, ix, el = x
                gterm = self.generic(el)
                gkey = gterm if gterm.k != "int" else gterm.a[1][0][0]
                ekey = el if el.k != "int" else el.a[1][0][0]
                tmpl = d.subst(s.a[0], {ekey: gterm})
                if self.has_phi(tmpl):
                    return None
            else:
                return None
            # ix = phi + c with phi stepping by one
            if len(ix.a[1]) != 1 or ix.a[1][0][1] != 1:
                return None
            a = ix.a[1][0][0]
            if a not in self.phis or B[a] is not addc(ia(a), 1):
                return None
            cur = (bs, ix, a, tmpl)
            if got is not None and got != cur:
                return None
            got = cur
        if got is None:
            return None
        bs, ix, a, tmpl = got
        lo = addc(Be[a], ix.a[0])
        if tmpl is not None:
            bs = base(ph.ty, ("mapseq", bs, tmpl))
        return d.seq(list(Be[ph.sym].a[0]) + [mk("sub", bs, lo, ix)])

    def generic(self, el):
        if el.k == "int":
            return ia(atom("ch", mkkey(("generic",))))
        return mk("sym", el.a[0], ("generic",))

    def find_elem(self, v):
        """the unique elem(b, phi+c) sub-term of v"""
        found = []

        def scan(t, seen):
            if isinstance(t, tuple):
                for x in t:
                    scan(x, seen)
                return
            if not isinstance(t, T) or t in seen:
                return
            seen.add(t)
            if t.k in ("sym", "int"):
                e = self.d.as_elem(t)
                if e is not None and isinstance(e[0], T) and e[0].k == "base" and not self.has_phi(e[0]) and self.has_phi(e[1]):
                    if (e[0], e[1], t) not in found:
                        found.append((e[0], e[1], t))
                    return
            if t.k == "A" and t.a[0] in ("u", "v", "ch"):
                e = self.d.as_elem(ia(t))
                if e is not None and self.has_phi(e[1]) and not self.has_phi(e[0]):
                    x = (e[0], e[1], ia(t))
                    if x not in found:
                        found.append(x)
                    return
            for x in t.a:
                scan(x, seen)

        scan(v, set())
        return found[0] if len(found) == 1 else None

    def reduce(self, st, ds):
        """rewrite the deltas modulo the equalities known in st"""
        atoms = set(a for x in ds for a, _ in x.a[1])
        _, axe, seen = st.axioms(atoms)
        sys_ = [x for x in list(st.eqs) + axe if any(a in seen or a in atoms for a, _ in x.a[1])]
        if not sys_:
            return ds
        # Gaussian elimination, pivoting on anything but `size` atoms first
        piv = []
        work = list(sys_)
        subs = []
        work.sort(key=lambda x: x.id)
        while work:
            e = work.pop(0)
            for a, v in subs:
                c = dict(e.a[1]).get(a, 0)
                if c:
                    e = add(sub(e, scale(ia(a), c)), scale(v, c))
            cand = [(a, c) for a, c in e.a[1] if abs(c) == 1 and a not in self.phis]
            if not cand:
                continue
            cand.sort(key=lambda z: (z[0].a[0] in ("size",), -z[0].id))
            a, c = cand[0]
            # a = -(e - c a)/c
            v = scale(sub(e, scale(ia(a), c)), -1 if c == 1 else 1)
            subs = [(x, add(sub(y, scale(ia(a), dict(y.a[1]).get(a, 0))), scale(v, dict(y.a[1]).get(a, 0)))) for x, y in subs]
            subs.append((a, v))
        out = []
        for x in ds:
            for a, v in subs:
                c = dict(x.a[1]).get(a, 0)
                if c:
                    x = add(sub(x, scale(ia(a), c)), scale(v, c))
            out.append(x)
        return out

    # -------------------------------------------------------------- candidates
    def candidates(self, H, Be, backs, Bs, E):
        d = self.d
        out = []

        def addg(g):
            if g.k == "int" and not is_const(g) and g not in out and self.has_phi(g):
                out.append(g)

        ints = [ph for ph in self.phis.values() if ph.kind == "int"]
        for ph in ints:
            x = ia(ph.sym)
            addg(x)
            addg(sub(x, Be[ph.sym]))
            addg(sub(Be[ph.sym], x))
        # well-formed segments
        segs = set()

        def scan(t, seen):
            if isinstance(t, tuple):
                for x in t:
                    scan(x, seen)
                return
            if not isinstance(t, T) or t in seen:
                return
            seen.add(t)
            if t.k == "sub":
                segs.add(t)
            for x in t.a:
                scan(x, seen)
        seen = set()
        for p in self.pat.values():
            scan(self.sub(p, E), seen)
        for s in sorted(segs, key=lambda z: z.id):
            addg(sub(s.a[2], s.a[1]))
            addg(sub(d.blen(s.a[0]), s.a[2]))
        for p in self.pat.values():
            for r in self.ranges(p):
                addg(sub(r[1], r[0]))
                addg(addc(sub(r[1], r[0]), 1))
                addg(sub(r[1], Be_sub(self, r[0], Be)))
        # facts of the back edges, rewritten for the next head
        for b, B in zip(backs, Bs):
            inv = {}
            for ph in ints:
                dl = sub(B[ph.sym], ia(ph.sym))
                if is_const(dl):
                    inv[ph.sym] = sub(ia(ph.sym), dl)
            for f in list(b.facts) + [x for e in b.eqs for x in (e, neg(e))]:
                if not self.has_phi(f):
                    continue
                try:
                    g = d.subst(d.subst(f, E), inv)
                except Undecided:
                    continue
                addg(g)
        # elements without extent: the sum over them stays what it was
        for ph in ints:
            i = ia(ph.sym)
            if not backs or any(sub(B[ph.sym], i) is not ONE for B in Bs):
                continue
            for a, _ in [t for f in list(backs[0].facts) + list(backs[0].eqs) for t in f.a[1]]:
                e = d.as_elem(a.a[1]) if a.a[0] == "size" else None
                if e and e[1] is i and all(b.entails(neg(ia(a))) for b in backs):
                    addg(sub(d.P(e[0], "size", Be[ph.sym]), d.P(e[0], "size", i)))
        # facts about entry values
        for ph in ints:
            v = Be[ph.sym]
            if len(v.a[1]) == 1 and v.a[1][0][1] == 1:
                a = v.a[1][0][0]
                for f in self.entry.facts:
                    c = dict(f.a[1]).get(a)
                    if c:
                        addg(add(f, scale(sub(ia(ph.sym), v), c)))
        return out[:60]

    def ranges(self, v, out=None, depth=0):
        if out is None:
            out = []
        if isinstance(v, T) and depth < 6:
            if v.k == "agg" and self.eng.p.adt_name(v.a[0]) in ("Range", "RangeInclusive"):
                if v.a[2][0].k == "int" and v.a[2][1].k == "int":
                    out.append((v.a[2][0], v.a[2][1]))
            elif v.k in ("it", "agg", "ref"):
                for x in v.a:
                    if isinstance(x, tuple):
                        for y in x:
                            self.ranges(y, out, depth + 1)
                    else:
                        self.ranges(x, out, depth + 1)
        return out


def Be_sub(lr, x, Be):
    try:
        return lr.d.subst(x, Be)
    except Undecided:
        return x


def nullspace(rows, n):
    """basis of { c : row . c = 0 for all rows } over the rationals"""
    m = [[Fraction(x) for x in r] for r in rows if any(r)]
    pivs = []
    r = 0
    for c in range(n):
        p = next((i for i in range(r, len(m)) if m[i][c] != 0), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        pv = m[r][c]
        m[r] = [x / pv for x in m[r]]
        for i in range(len(m)):
            if i != r and m[i][c] != 0:
                f = m[i][c]
                m[i] = [x - f * y for x, y in zip(m[i], m[r])]
        pivs.append(c)
        r += 1
    free = [c for c in range(n) if c not in pivs]
    out = []
    for f in free:
        v = [Fraction(0)] * n
        v[f] = Fraction(1)
        for i, c in enumerate(pivs):
            v[c] = -m[i][f]
        out.append(v)
    return out


def rref(rows, n):
    """-> [(pivot column, row)]"""
    m = [list(r) for r in rows]
    out = []
    r = 0
    for c in range(n):
        p = next((i for i in range(r, len(m)) if m[i][c] != 0), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        pv = m[r][c]
        m[r] = [x / pv for x in m[r]]
        for i in range(len(m)):
            if i != r and m[i][c] != 0:
                f = m[i][c]
                m[i] = [x - f * y for x, y in zip(m[i], m[r])]
        out.append((c, r))
        r += 1
    return [(c, m[i]) for c, i in out]
