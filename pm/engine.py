"""Abstract interpreter over the dumped MIR.

Flow-sensitive, with trace partitioning inside acyclic regions (states are merged again at block
entries when they only differ in which variants a value may have), and a fixpoint at every loop
head: locations a loop changes become fresh symbols, affine relations between them are inferred
(Karr), inequality candidates are kept when inductive (Houdini).
"""
import time
import re
from fractions import Fraction
from .terms import *
from .dom import *

MAXDEPTH = 48
MAXSTATES = 600


class Frame(object):
    __slots__ = ("fn", "depth", "live", "rpo", "loops", "key")


class FnInfo(object):
    """per-function CFG facts"""

    def __init__(self, f):
        self.f = f
        bl = f["blocks"]
        n = len(bl)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(bl):
            t = b["t"]
            k = t["k"]
            if k == "switch":
                self.succ[i] = [x[1] for x in t["targets"]] + [t["else"]]
            elif k in ("goto", "drop", "assert"):
                self.succ[i] = [t["to"]]
            elif k == "call" and t["to"] is not None:
                self.succ[i] = [t["to"]]
        # reachable, rpo
        seen, order = set(), []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        self.pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators
        dom = {order[0]: {order[0]}}
        allb = set(order)
        for b in order[1:]:
            dom[b] = set(allb)
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[p] for p in self.pred[b]]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        self.dom = dom
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if s in dom[b]:  # back edge
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(self.pred[x])
        # locals mutably borrowed / raw borrowed (never pruned)
        self.mutb = set()
        use, deff = {}, {}
        for b in order:
            u, d = set(), set()

            def ruse(l):
                if l not in d:
                    u.add(l)

            def pl_use(p):
                ruse(p["l"])
                for e in p["p"]:
                    if e[0] == "idx":
                        ruse(e[1])

            def op_use(o):
                if o["o"] in ("copy", "move"):
                    pl_use(o["pl"])

            for s in bl[b]["s"]:
                if s[0] == "=":
                    rv = s[2]
                    for kk in ("a", "b"):
                        if kk in rv and isinstance(rv[kk], dict):
                            op_use(rv[kk])
                    for o in rv.get("ops", []):
                        op_use(o)
                    if "pl" in rv:
                        pl_use(rv["pl"])
                        if (rv["r"] == "ref" and rv["mut"]) or rv["r"] == "rawptr":
                            if not any(e[0] == "deref" for e in rv["pl"]["p"]):
                                self.mutb.add(rv["pl"]["l"])
                    if s[1]["p"]:
                        pl_use(s[1])
                    else:
                        d.add(s[1]["l"])
                else:
                    pl_use(s[1])
            t = bl[b]["t"]
            k = t["k"]
            if k == "switch":
                op_use(t["d"])
            elif k == "assert":
                op_use(t["c"])
            elif k == "call":
                op_use(t["f"])
                for a in t["args"]:
                    op_use(a)
                if t["dest"]["p"]:
                    pl_use(t["dest"])
                else:
                    d.add(t["dest"]["l"])
            elif k == "return":
                ruse(0)
            use[b], deff[b] = u, d
        live = {b: set() for b in order}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                n2 = use[b] | (o - deff[b])
                if n2 != live[b]:
                    live[b] = n2
                    ch = True
        self.live = {b: live[b] | self.mutb for b in order}


class Panic(object):
    __slots__ = ("site", "kind", "st", "cond")


class Engine(object):
    def __init__(self, prog, opts=None):
        self.p = prog
        self.d = Dom(prog)
        self.opts = opts or {}
        self.infos = {}
        self.stack = []  # call-site keys
        self.active = []  # fn ids
        self.panics = []
        self.calls_seen = {}
        self.depth = 0
        self.tmp = 0
        self.hooks = []  # call hooks: f(eng, st, call, args, site) -> None | list[(st, val)]
        self.observers = []  # f(eng, st, call, args, site)
        self.loop_log = []
        self.unmodelled = {}
        self.recursion = None
        self.boundary = True
        self.steps = 0
        self.max_steps = 400000
        self.deadline = None
        self.rec_panics = True
        self.quiet = 0
        self.loop_memo = {}
        from . import models
        self.models = models

    # ------------------------------------------------------------ utils
    def info(self, fid):
        r = self.infos.get(fid)
        if r is None:
            r = self.infos[fid] = FnInfo(self.p.fns[fid])
        return r

    def site(self):
        return tuple(self.stack)

    def fresh_key(self, what):
        return ("h", what, tuple(self.stack))

    def alloc(self, st, v, ty=None):
        """a fresh abstract memory cell"""
        self.tmp += 1
        root = ("t", tuple(self.stack), len([r for r in st.mem if r[0] == "t"]))
        while root in st.mem:
            root = root + (0,)
        st.mem[root] = v
        return root

    # ------------------------------------------------------------ places
    def load(self, st, root, proj):
        v = st.mem.get(root, UNDEF)
        return self.walk(st, v, proj)

    def walk(self, st, v, proj):
        variant = 0
        for e in proj:
            v, variant = self.step(st, v, e, variant)
        return v

    def step(self, st, v, e, variant):
        d = self.d
        k = e[0]
        if k == "f":
            if v.k == "mem":  # raw storage (MaybeUninit etc.): transparent
                return v, 0
            if v.k == "box":
                return v, 0
            if v.k == "union":
                return v.a[0], 0
            vv = e[2] if len(e) > 2 and e[2] is not None and not isinstance(e[2], T) and e[0] == "f" and variant == -1 else variant
            return d.proj(v, e[1], variant), 0
        if k == "as":
            return v, e[1]
        if k == "deref":
            if v.k == "ref":
                return v.a[0], 0
            if v.k == "mref":
                return self.load(st, v.a[0], v.a[1]), 0
            if v.k == "box":
                return self.load(st, v.a[0], ()), 0
            if v.k == "undef":
                return UNDEF, 0
            if v.k == "sym":
                t = self.p.types[v.a[0]]
                if t["k"] in ("ref", "ptr"):
                    return d.mk_sym(t["elem"], ("deref", v)), 0
                if t["k"] == "adt" and t["path"].endswith("boxed::Box"):
                    return d.mk_sym(t["args"][0], ("deref", v)), 0
            raise Undecided("deref of %s" % v.k)
        if k in ("sidx", "idx"):
            idx = e[1]
            if v.k != "seq":
                raise Undecided("index into %s" % v.k)
            r = d.seq_get(st, v, idx)
            if r is None:
                raise Undecided("element %s of %s" % (show(idx), show(v)))
            return r, 0
        if k == "cidx":
            off, minlen, fromend = e[1], e[2], e[3]
            i = sub(d.seq_len(v), num(off)) if fromend else num(off)
            r = d.seq_get(st, v, i)
            if r is None:
                raise Undecided("const index")
            return r, 0
        if k == "sub":
            ln = d.seq_len(v)
            hi = sub(ln, num(e[2])) if e[3] else num(e[2])
            r = d.seq_slice(st, v, num(e[1]), hi)
            if r is None:
                raise Undecided("subslice")
            return r, 0
        raise Undecided("projection %s" % k)

    def store(self, st, root, proj, new):
        st.mem[root] = self.upd(st, st.mem.get(root, UNDEF), proj, new, 0)

    def upd(self, st, v, proj, new, variant):
        if not proj:
            return new
        e = proj[0]
        d = self.d
        k = e[0]
        if k == "as":
            return self.upd(st, v, proj[1:], new, e[1])
        if k == "f":
            if v.k == "mem":
                return mk("mem", new)
            if v.k == "sym":
                v = d.expand(v, variant)
            if v.k == "agg":
                fs = list(v.a[2])
                while len(fs) <= e[1]:
                    fs.append(UNDEF)
                fs[e[1]] = self.upd(st, fs[e[1]], proj[1:], new, 0)
                return mk("agg", v.a[0], v.a[1], tuple(fs))
            if v.k == "undef":
                raise Undecided("field write to uninit")
            raise Undecided("field write to " + v.k)
        if k in ("sidx", "idx"):
            if len(proj) > 1:
                old = d.seq_get(st, v, e[1])
                if old is None:
                    raise Undecided("write through index")
                new = self.upd(st, old, proj[1:], new, 0)
            r = d.seq_set(st, v, e[1], [d.one(new)])
            if r is None:
                raise Undecided("indexed write at %s of %s" % (show(e[1]), show(v)))
            return r
        if k == "slice":  # sub-slice view [lo, hi)
            c = d.cut_at(st, v, e[2])
            if c is None:
                raise Undecided("slice write")
            c0 = d.cut_at(st, d.seq(c[0]), e[1])
            if c0 is None:
                raise Undecided("slice write")
            mid = self.upd(st, d.seq(c0[1]), proj[1:], new, 0)
            return d.seq(list(c0[0]) + list(mid.a[0]) + list(c[1]))
        raise Undecided("write projection %s" % k)

    def resolve(self, st, depth, pl):
        """place -> (root, proj) of the memory cell, following mutable references;
        or ('val', v) if it goes through a shared reference"""
        root = (depth, pl["l"])
        proj = []
        for e in pl["p"]:
            if e[0] == "deref":
                v = self.load(st, root, proj)
                if v.k == "mref":
                    root, proj = v.a[0], list(v.a[1])
                elif v.k == "box":
                    root, proj = v.a[0], []
                elif v.k == "ref":
                    root = self.ghost(st, v.a[0])
                    proj = []
                else:
                    v2, _ = self.step(st, v, e, 0)
                    root = self.ghost(st, v2)
                    proj = []
            elif e[0] == "idx":
                proj.append(("sidx", st.mem.get((depth, e[1]), UNDEF)))
            elif e[0] == "cidx":
                v = self.load(st, root, proj)
                i = sub(self.d.seq_len(v), num(e[1])) if e[3] else num(e[1])
                proj.append(("sidx", i))
            else:
                proj.append(tuple(e[:2]) if e[0] in ("f", "as") else tuple(e))
        return root, tuple(proj)

    def ghost(self, st, v):
        r = ("g", v)
        st.mem[r] = v
        return r

    def read_place(self, st, depth, pl):
        v = st.mem.get((depth, pl["l"]), UNDEF)
        variant = 0
        for e in pl["p"]:
            if e[0] == "idx":
                e = ("sidx", st.mem.get((depth, e[1]), UNDEF))
            v, variant = self.step(st, v, e, variant)
        return v

    def write_place(self, st, depth, pl, val):
        if not pl["p"]:
            st.mem[(depth, pl["l"])] = val
            return
        root, proj = self.resolve(st, depth, pl)
        if root[0] == "g":
            raise Undecided("write through a shared reference")
        if root not in st.mem or st.mem[root] is UNDEF:
            # field-wise initialisation of a local
            ty = self.root_ty(root)
            if ty is not None and self.p.types[ty]["k"] in ("tuple", "adt", "closure"):
                v = proj[0][1] if proj[0][0] == "as" else 0
                n = len(self.p.field_tys(ty, v))
                st.mem[root] = mk("agg", ty, v, (UNDEF,) * n)
        self.store(st, root, proj, val)

    def root_ty(self, root):
        if isinstance(root[0], int) and root[0] < len(self.frames):
            return self.frames[root[0]]["locals"][root[1]]
        return None

    # ------------------------------------------------------------ operands / rvalues
    def const(self, st, o):
        d, p = self.d, self.p
        t = p.types[o["t"]]
        if "fn" in o:
            return mk("fn", FnBox(o["fn"]))
        if "v" in o:
            v = o["v"]
            if t["k"] == "bool":
                return TT if v else FF
            if t["k"] in ("int", "char"):
                return num(v)
            if t["k"] == "adt" and t["akind"] == "struct":
                fts = p.field_tys(o["t"])
                if len(fts) == 1:
                    return mk("agg", o["t"], 0, (self.const(st, {"t": fts[0], "v": v}),))
            e = self.const_enum(o)
            return e if e is not None else mk("sym", o["t"], ("const", o.get("dbg", v)))
        if "str" in o:
            return ref(d.lit(o["str"]))
        if "promoted" in o:
            return self.const_body(st, o["promoted"])
        if "cbody" in o:
            return self.const_body(st, o["cbody"])
        if t["k"] == "tuple" and not t["elems"]:
            return mk("agg", o["t"], 0, ())
        if t["k"] == "adt" and t["akind"] == "struct" and not p.field_tys(o["t"]):
            return mk("agg", o["t"], 0, ())
        if t["k"] == "closure" and not t["upvars"]:
            return mk("agg", o["t"], 0, ())
        if t["k"] == "fndef":
            return mk("fn", FnBox(t.get("fn") or {"path": t["str"]}))
        e = self.const_enum(o)
        if e is not None:
            return e
        return d.mk_sym(o["t"], ("const", o.get("cpath") or o.get("dbg", "")))

    def const_enum(self, o):
        """an enum constant printed as a path, with an opaque payload"""
        d, p = self.d, self.p
        t = p.types[o["t"]]
        dbg = o.get("dbg", "")
        if t["k"] != "adt" or t["akind"] != "enum":
            return None
        vi = p.variant_ix(o["t"], last(dbg.split("(")[0].strip()))
        if vi is None:
            return None
        return mk("agg", o["t"], vi, tuple(d.mk_sym(x, ("const", dbg, i)) for i, x in enumerate(p.field_tys(o["t"], vi))))

    def const_body(self, st, fid):
        outs = self.run_fn(fid, [], st.copy())
        if len(outs) != 1:
            raise Undecided("constant with %d outcomes" % len(outs))
        return outs[0][1]

    def operand(self, st, depth, o):
        if o["o"] in ("copy", "move"):
            return self.read_place(st, depth, o["pl"])
        if o["o"] == "const":
            return self.const(st, o)
        return FF  # runtime checks flags

    def rvalue(self, st, depth, rv, dest_ty):
        d, p = self.d, self.p
        r = rv["r"]
        if r == "use":
            return self.operand(st, depth, rv["a"])
        if r == "ref":
            if rv["mut"]:
                root, proj = self.resolve(st, depth, rv["pl"])
                return mk("mref", root, proj)
            v = self.read_place(st, depth, rv["pl"])
            return ref(v)
        if r == "rawptr":
            root, proj = self.resolve(st, depth, rv["pl"])
            return mk("mref", root, proj)
        if r == "discr":
            v = self.read_place(st, depth, rv["pl"])
            return self.discr(st, v)
        if r == "agg":
            ops = [self.operand(st, depth, o) for o in rv["ops"]]
            ak = rv["ak"]
            if ak == "array":
                return d.seq([d.one(x) for x in ops])
            if ak == "tuple":
                return mk("agg", dest_ty, 0, tuple(ops))
            if ak in ("adt", "closure"):
                ty = rv.get("t", dest_ty)
                return self.mkagg(st, ty, rv.get("v", 0), tuple(ops))
            raise Undecided("aggregate")
        if r == "bin":
            a, b = self.operand(st, depth, rv["a"]), self.operand(st, depth, rv["b"])
            return self.binop(st, rv["op"], a, b, dest_ty)
        if r == "un":
            a = self.operand(st, depth, rv["a"])
            if rv["op"] == "Not":
                if a.k == "int":
                    return ia(atom("op", "not", a))
                return b_not(a)
            if rv["op"] == "Neg":
                return neg(a)
            if rv["op"] == "PtrMetadata":
                v = a
                while v.k in ("ref", "mref"):
                    v = v.a[0] if v.k == "ref" else self.load(st, v.a[0], v.a[1])
                if v.k == "seq":
                    return d.seq_len(v)
            raise Undecided("unop " + rv["op"])
        if r == "cast":
            a = self.operand(st, depth, rv["a"])
            k = rv["kind"]
            if k.startswith("BoxDeref") and a.k == "box":
                return mk("mref", a.a[0], ())
            if k in ("IntToInt",):
                if a.k == "int":
                    return self.int_cast(st, a, rv["t"])
                if a.k in ("discr",):
                    return a
                if a in (TT, FF):
                    return num(1 if a is TT else 0)
                return ia(atom("cast", a))
            if k == "Transmute" and p.types[rv["t"]]["k"] == "int" and a.k != "int":
                return d.mk_sym(rv["t"], ("addr", a))
            return a
        if r == "repeat":
            if rv["n"] is not None and rv["n"] <= 8:
                a = self.operand(st, depth, rv["a"])
                return d.seq([d.one(a)] * rv["n"])
        raise Undecided("rvalue " + r)

    def int_cast(self, st, a, ty):
        t = self.p.types[ty]
        bits = {"u8": 8, "u16": 16, "u32": 32, "i8": 7, "i16": 15, "i32": 31, "i64": 63, "isize": 63}.get(t["name"], 64)
        if is_const(a):
            v = a.a[0]
            if 0 <= v < (1 << bits):
                return a
        if bits < 63 and st.entails(addc(neg(a), (1 << bits) - 1)) and st.entails(a):
            return a  # the value is known to fit
        if len(a.a[1]) == 1 and a.a[0] == 0:
            return a if bits >= 64 or not self.opts.get("narrow", True) else ia(atom("un", "cast%d" % bits, a))
        if bits >= 63:
            return a
        return ia(atom("un", "cast%d" % bits, a))

    def mkagg(self, st, ty, v, ops):
        """aggregate construction with eta-collapse: rebuilding a value from all of its own parts"""
        return mk("agg", ty, v, ops)

    def discr(self, st, v):
        p = self.p
        if v.k == "agg":
            t = p.types[v.a[0]]
            if t["k"] == "adt" and t["variants"]:
                return num(t["variants"][v.a[1]]["discr"])
            return num(v.a[1])
        if v.k == "sym":
            return mk("discr", v)
        raise Undecided("discriminant of " + v.k)

    def binop(self, st, op, a, b, dest_ty):
        p = self.p
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            if a.k != "int" or b.k != "int":
                raise Undecided("arith on " + a.k)
            if op[0] == "A":
                r = add(a, b)
                ov = ge(addc(r, -U64))
                if self.opts.get("no_add_overflow", True):
                    ov = mk("ovf", r)
            elif op[0] == "S":
                r = sub(a, b)
                ov = ge(addc(neg(r), -1))
            else:
                r = self.mul(a, b)
                ov = mk("ovf", r)
            return mk("agg", dest_ty, 0, (r, ov))
        if op in ("Add", "AddUnchecked"):
            return add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return sub(a, b)
        if op in ("Mul", "MulUnchecked"):
            return self.mul(a, b)
        if op in ("Lt", "Le", "Gt", "Ge"):
            if a.k == "int" and b.k == "int":
                z = sub(b, a)
                return {"Lt": lambda: ge(addc(z, -1)), "Le": lambda: ge(z),
                        "Gt": lambda: ge(addc(neg(z), -1)), "Ge": lambda: ge(neg(z))}[op]()
            return mk("bv", ("cmp", op, a, b))
        if op in ("Eq", "Ne"):
            r = self.eqf(st, a, b)
            return r if op == "Eq" else b_not(r)
        if op in ("BitAnd", "BitOr", "BitXor") and a.k != "int" and b.k != "int":
            if op == "BitAnd":
                return b_and(a, b)
            if op == "BitOr":
                return b_or(a, b)
            return b_or(b_and(a, b_not(b)), b_and(b_not(a), b))
        if a.k == "int" and b.k == "int":
            if is_const(a) and is_const(b):
                x, y = a.a[0], b.a[0]
                f = {"BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                     "Shl": lambda: x << y, "Shr": lambda: x >> y, "Div": lambda: x // y, "Rem": lambda: x % y}
                if op in f:
                    return num(f[op]())
            return ia(atom("un", op, a, b))
        if op == "Cmp":
            return mk("sym", dest_ty, ("cmp", a, b))
        return mk("bv", ("bin", op, a, b)) if p.types[dest_ty]["k"] == "bool" else self.d.mk_sym(dest_ty, ("bin", op, a, b))

    def mul(self, a, b):
        if is_const(a):
            return scale(b, a.a[0])
        if is_const(b):
            return scale(a, b.a[0])
        return ia(atom("un", "mul", a, b))

    def eqf(self, st, a, b):
        """formula for a == b"""
        if a is b:
            return TT
        if a.k == "int" and b.k == "int":
            return eq0(sub(a, b))
        if a.k == "discr" or b.k == "discr":
            x, y = (a, b) if a.k == "discr" else (b, a)
            if y.k == "int" and is_const(y):
                t = self.p.types[x.a[0].a[0]]
                vs = frozenset(i for i, v in enumerate(t["variants"]) if v["discr"] == y.a[0])
                return mk("isvar", x.a[0], vs)
            return mk("eqd", *sorted((x, y), key=lambda z: z.id))
        if a.k in ("tt", "ff", "bv", "ge", "eq0", "not", "and", "or", "isvar", "eqv"):
            if b is TT:
                return a
            if b is FF:
                return b_not(a)
            if a is TT:
                return b
            if a is FF:
                return b_not(b)
            return b_or(b_and(a, b), b_and(b_not(a), b_not(b)))
        r = st.eqv_decide(a, b)
        if r is not None:
            return TT if r else FF
        while a.k == "ref" and b.k == "ref":
            a, b = a.a[0], b.a[0]
        for x, y in ((a, b), (b, a)):
            if x.k == "sym" and y.k == "agg" and self.p.is_enum(x.a[0]) and not y.a[2]:
                return mk("isvar", x, frozenset([y.a[1]]))
        x, y = sorted((a, b), key=lambda z: z.id)
        return mk("eqv", x, y)

    # ------------------------------------------------------------ functions
    frames = []

    def run_fn(self, fid, args, st):
        """-> list of (state, return value)"""
        if self.depth > MAXDEPTH:
            raise Undecided("call depth")
        f = self.p.fns[fid]
        info = self.info(fid)
        depth = self.depth
        while len(self.frames) <= depth:
            self.frames.append(None)
        saved = self.frames[depth]
        self.frames[depth] = f
        self.depth += 1
        self.active.append(fid)
        try:
            if f.get("spread") is not None:
                # rust-call ABI: the last argument is passed as a tuple
                sp = f["spread"]
                tup = args[sp - 1:]
                args = args[: sp - 1] + [mk("agg", f["locals"][sp], 0, tuple(tup))]
            for i, a in enumerate(args):
                st.mem[(depth, i + 1)] = a
            rets, exits, backs = self.region(info, depth, set(info.order), 0, {0: [st]}, None)
            out = []
            for s in rets:
                v = s.mem.get((depth, 0), UNDEF)
                if v is UNDEF:
                    t = self.p.types[f["locals"][0]]
                    if t["k"] == "tuple" and not t["elems"]:
                        v = self.d.unit()
                for r in [r for r in s.mem if (r[0] == depth) or (r[0] == "t" and len(r[1]) > len(self.stack) and False) or r[0] == "g"]:
                    del s.mem[r]
                out.append((s, v))
            return self.merge_rets(out)
        except Undecided as ex:
            if not getattr(ex, "fn", None):
                ex.fn = f["path"]
                ex.args = ("%s (in %s)" % (ex.args[0] if ex.args else "", f["path"]),)
            raise
        finally:
            self.frames[depth] = saved
            self.depth -= 1
            self.active.pop()

    def merge_rets(self, outs):
        if len(outs) <= 1:
            return outs
        groups = {}
        order = []
        for s, v in outs:
            k = (v, tuple(sorted(((repr_root(r), x.id) for r, x in s.mem.items()))), s.log, s.notes)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(s)
        res = []
        for k in order:
            for s in self.merge_states(groups[k]):
                res.append((s, k[0]))
        return res

    def merge_states(self, sts):
        """sts have identical memory; join them when their facts differ in a mergeable way"""
        changed = True
        sts = list(sts)
        while changed and len(sts) > 1:
            changed = False
            for i in range(len(sts)):
                for j in range(i + 1, len(sts)):
                    m = self.try_merge(sts[i], sts[j])
                    if m is not None:
                        sts[i] = m
                        sts.pop(j)
                        changed = True
                        break
                if changed:
                    break
        return sts

    def try_merge(self, a, b):
        if a.bools != b.bools:
            ks = [k for k in set(a.bools) | set(b.bools) if a.bools.get(k) != b.bools.get(k)]
            if len(ks) != 1 or a.facts != b.facts or a.eqs != b.eqs or a.ne != b.ne or a.var != b.var:
                # different booleans: only a complementary pair merges
                return None
            if a.bools.get(ks[0]) is None or b.bools.get(ks[0]) is None:
                m = a.copy() if a.bools.get(ks[0]) is None else b.copy()
                return m
            m = a.copy()
            del m.bools[ks[0]]
            return m
        keys = [k for k in sorted(set(a.var) | set(b.var), key=lambda z: z.id) if a.variants(k) != b.variants(k)]
        same_num = a.facts == b.facts and a.eqs == b.eqs and a.ne == b.ne
        if same_num:
            if not keys:
                return a
            if len(keys) == 1:
                m = a.copy()
                m.var[keys[0]] = a.variants(keys[0]) | b.variants(keys[0])
                m._pc = {}
                return m
            # one contains the other
            if all(a.variants(k) <= b.variants(k) for k in keys):
                return b
            if all(b.variants(k) <= a.variants(k) for k in keys):
                return a
            return None
        if keys:
            return None
        # complementary inequality: x >= 0 | -x-1 >= 0
        if a.eqs == b.eqs and a.ne == b.ne:
            da, db = a.facts - b.facts, b.facts - a.facts
            if not da or not db:
                return a if not da else b  # the weaker one
            if len(da) == 1 and len(db) == 1:
                x, y = next(iter(da)), next(iter(db))
                if addc(neg(x), -1) is y:
                    m = a.copy()
                    m.facts = a.facts & b.facts
                    m._pc = {}
                    return m
        # general: subsumption
        if self.subsumes(a, b):
            return a
        if self.subsumes(b, a):
            return b
        return None

    def subsumes(self, weak, strong):
        """every constraint of `weak` is implied by `strong`"""
        if weak.ne - strong.ne:
            return False
        return all(strong.entails(x) for x in weak.facts - strong.facts) and all(
            strong.entails(x) and strong.entails(neg(x)) for x in weak.eqs - strong.eqs)

    # ------------------------------------------------------------ regions
    def region(self, info, depth, blocks, start, entry, head):
        """run the acyclic part of `blocks` from the entry states.
        -> (return states, {exit block: states}, back states to head)"""
        pending = {b: list(s) for b, s in entry.items()}
        rets, exits, backs = [], {}, []
        first = head is not None
        f = info.f
        while pending:
            b = min(pending, key=lambda x: info.rpo[x])
            sts = pending.pop(b)
            sts = self.at_block(info, depth, b, sts)
            inner = info.loops.get(b)
            if inner is not None and b != head:
                for s in sts:
                    r2, e2, _ = self.loop(info, depth, b, inner, s)
                    rets.extend(r2)
                    for t, ss in e2.items():
                        if t == head:
                            backs.extend(ss)
                        elif t in blocks:
                            pending.setdefault(t, []).extend(ss)
                        else:
                            exits.setdefault(t, []).extend(ss)
                continue
            for s in sts:
                for t, s2 in self.block(info, depth, b, s):
                    if t is None:
                        rets.append(s2)
                    elif t == head:
                        backs.append(s2)
                    elif t in blocks:
                        pending.setdefault(t, []).append(s2)
                    else:
                        exits.setdefault(t, []).append(s2)
        return rets, exits, backs

    def at_block(self, info, depth, b, sts):
        """prune dead locals, then merge equal stores"""
        live = info.live.get(b, ())
        out = {}
        order = []
        for s in sts:
            for r in [r for r in s.mem if (r[0] == depth and r[1] not in live) or r[0] == "g"]:
                del s.mem[r]
            if len(sts) == 1:
                return sts
            k = (tuple(sorted(((repr_root(r), x.id) for r, x in s.mem.items()))), s.log, s.notes)
            if k not in out:
                out[k] = []
                order.append(k)
            out[k].append(s)
        res = []
        for k in order:
            res.extend(self.merge_states(out[k]))
        if len(res) > MAXSTATES:
            raise Undecided("too many partitions (%d) in %s" % (len(res), info.f["path"]))
        return res

    def block(self, info, depth, b, st, first=0):
        """-> list of (target block or None for return, state)"""
        self.steps += 1
        if self.steps & 63 == 0 and self.deadline and time.time() > self.deadline:
            raise Undecided("time budget")
        if self.steps > self.max_steps:
            raise Undecided("step budget")
        f = info.f
        bl = f["blocks"][b]
        for i in range(first, len(bl["s"])):
            s = bl["s"][i]
            if s[0] == "=":
                rv = s[2]
                if rv["r"] == "cast" and rv["kind"] == "IntToInt":
                    c = self.operand(st, depth, rv["a"])
                    if c.k in ("ge", "eq0", "not", "and", "or", "eqv", "bv"):  # a truth value used as a number
                        out = []
                        for cond, n in ((c, 1), (b_not(c), 0)):
                            for s1 in st.copy().assume(cond):
                                if s1.feasible():
                                    self.write_place(s1, depth, s[1], num(n))
                                    out += self.block(info, depth, b, s1, i + 1)
                        return out
                v = self.rvalue(st, depth, rv, s[1]["t"])
                self.write_place(st, depth, s[1], v)
            elif s[0] == "setdiscr":
                root, proj = self.resolve(st, depth, s[1])
                old = self.load(st, root, proj)
                self.store(st, root, proj, mk("agg", s[1]["t"], s[2], old.a[2] if old.k == "agg" else ()))
        t = bl["t"]
        k = t["k"]
        if k == "goto":
            return [(t["to"], st)]
        if k == "return":
            return [(None, st)]
        if k == "drop":
            return [(t["to"], st)]
        if k == "unreachable":
            return []
        if k == "switch":
            return self.switch(st, depth, t)
        if k == "assert":
            c = self.operand(st, depth, t["c"])
            if t["msg"] == "other" or c.k == "ovf" or (c.k == "not" and c.a[0].k == "ovf"):
                o = c.a[0] if c.k == "not" else c
                if o.k == "ovf" and self.opts.get("on_add"):
                    self.opts["on_add"](self, st, o.a[0], (f["path"], t["ln"]))
                return [(t["to"], st)]
            good = c if t["exp"] else b_not(c)
            r = st.decide(good)
            if r is True:
                return [(t["to"], st)]
            self.panic(st, "assert:" + t["msg"], b_not(good), (f["path"], t["ln"]))
            return [(t["to"], s2) for s2 in st.assume(good)]
        if k == "call":
            return self.do_call(info, depth, b, st, t)
        raise Undecided("terminator " + k)

    def panic(self, st, kind, cond, where):
        if not self.rec_panics:
            return
        s = st.copy()
        for s2 in s.assume(cond):
            if not s2.feasible():
                continue
            self.panics.append((kind, where, tuple(self.stack), s2))

    def switch(self, st, depth, t):
        v = self.operand(st, depth, t["d"])
        out = []
        if v.k == "discr":
            s = v.a[0]
            ty = self.p.types[s.a[0]]
            dmap = {}
            for i, x in enumerate(ty["variants"]):
                dmap.setdefault(x["discr"], i)
            rest = st.variants(s)
            by_target = {}
            for val, to in t["targets"]:
                i = dmap.get(val)
                if i is None:
                    continue
                if i in rest:
                    by_target.setdefault(to, set()).add(i)
                    rest = rest - {i}
            if rest:
                by_target.setdefault(t["else"], set()).update(rest)
            items = list(by_target.items())
            for n, (to, vs) in enumerate(items):
                s2 = st if n == len(items) - 1 else st.copy()
                if s2.refine(s, frozenset(vs)):
                    out.append((to, s2))
            return out
        if v.k == "int":
            if is_const(v):
                for val, to in t["targets"]:
                    if val == v.a[0]:
                        return [(to, st)]
                return [(t["else"], st)]
            cur = [st]
            for val, to in t["targets"]:
                nxt = []
                for s in cur:
                    c = eq0(addc(v, -val))
                    s1 = s.copy()
                    out.extend((to, x) for x in s1.assume(c))
                    nxt.extend(s.assume(b_not(c)))
                cur = nxt
            out.extend((t["else"], s) for s in cur)
            return out
        if v.k == "undef":
            raise Undecided("branch on uninit")
        # boolean: targets [[0, bb]] else bb
        if len(t["targets"]) == 1 and t["targets"][0][0] == 0:
            f0, t1 = t["targets"][0][1], t["else"]
        elif len(t["targets"]) == 1 and t["targets"][0][0] == 1:
            f0, t1 = t["else"], t["targets"][0][1]
        else:
            f0 = dict((x[0], x[1]) for x in t["targets"]).get(0, t["else"])
            t1 = dict((x[0], x[1]) for x in t["targets"]).get(1, t["else"])
        r = st.decide(v)
        if r is True:
            return [(t1, st)]
        if r is False:
            return [(f0, st)]
        s1 = st.copy()
        out = [(t1, x) for x in s1.assume(v)]
        out += [(f0, x) for x in st.assume(b_not(v))]
        return out

    # ------------------------------------------------------------ calls
    def do_call(self, info, depth, b, st, t):
        fo = t["f"]
        args = [self.operand(st, depth, a) for a in t["args"]]
        callee = None
        if fo["o"] == "const" and "fn" in fo:
            callee = fo["fn"]
        else:
            fv = self.operand(st, depth, fo)
            if fv.k == "fn":
                callee = fv.a[0].info
        self.stack.append((info.f["id"], b))
        try:
            dest_ty = t["dest"]["t"]
            if callee is None:
                outs = self.havoc_call(st, {"path": "?fnptr", "kind": "ptr"}, args, dest_ty)
            else:
                outs = self.call(st, callee, args, dest_ty)
        finally:
            self.stack.pop()
        if t["to"] is None:
            for s, v in outs:
                if not s.feasible():
                    continue
                self.panics.append(("diverge", (info.f["path"], t["ln"]), tuple(self.stack), s))
            return []
        res = []
        for s, v in outs:
            if v is None:
                continue
            self.write_place(s, depth, t["dest"], v)
            res.append((t["to"], s))
        return res

    def call(self, st, callee, args, dest_ty):
        path = callee.get("rpath") or callee["path"]
        if dest_ty is None and callee.get("f") in self.p.fns:
            dest_ty = self.p.fns[callee["f"]]["locals"][0]
        if not self.quiet:
            for ob in self.observers:
                ob(self, st, callee, args)
        if callee.get("kind") == "ctor" and dest_ty is not None and self.p.types[dest_ty]["k"] == "adt" and \
                self.p.types[dest_ty]["path"] == callee["adt"]:
            return [(st, mk("agg", dest_ty, callee["variant"], tuple(args)))]
        for h in self.hooks:
            r = h(self, st, callee, args, dest_ty)
            if r is not None:
                return r
        r = self.models.model(self, st, callee, args, dest_ty)
        if r is not None:
            return r
        fid = callee.get("f")
        if fid is not None and fid in self.p.fns:
            if fid in self.active:
                if self.recursion is not None:
                    r = self.recursion(self, st, callee, args, dest_ty)
                    if r is not None:
                        return r
                raise Undecided("recursion: " + path)
            if callee.get("rlocal") or callee.get("local") or self.p.fns[fid].get("local", True):
                return self.run_fn(fid, list(args), st)
            keep = st.copy()
            saved = (list(self.active), list(self.stack), self.depth, len(self.panics), len(self.loop_log))
            try:
                return self.run_fn(fid, list(args), st)
            except Undecided as e:
                if "budget" in str(e) or "time" in str(e):
                    raise
                self.active[:], self.stack[:], self.depth = saved[0], saved[1], saved[2]
                del self.panics[saved[3]:]
                del self.loop_log[saved[4]:]
                return self.havoc_call(keep, callee, args, dest_ty)
        return self.havoc_call(st, callee, args, dest_ty)

    def call_value(self, st, fv, args, dest_ty):
        """call a closure / fn item value with already untupled arguments"""
        d = self.d
        base_v = fv
        for _ in range(4):
            if base_v.k == "ref":
                base_v = base_v.a[0]
            elif base_v.k == "mref":
                base_v = self.load(st, base_v.a[0], base_v.a[1])
            else:
                break
        if base_v.k == "fn":
            return self.call(st, base_v.a[0].info, args, dest_ty)
        if base_v.k == "hook":
            return base_v.a[0].fn(self, st, args)
        if base_v.k == "agg":
            t = self.p.types[base_v.a[0]]
            if t["k"] == "closure":
                fid = t.get("body")
                f = self.p.fns.get(fid)
                if f is None:
                    raise Undecided("closure without body")
                if fid in self.active:
                    if self.recursion is not None:
                        r = self.recursion(self, st, {"path": f["path"], "kind": "closure", "f": fid}, args, dest_ty)
                        if r is not None:
                            return r
                    raise Undecided("recursive closure")
                pt = self.p.types[f["locals"][1]]
                tmp = None
                if pt["k"] == "ref":
                    if pt["mut"]:
                        x = fv
                        # walk to the innermost reference to the closure
                        while x.k in ("mref", "ref"):
                            inner = self.load(st, x.a[0], x.a[1]) if x.k == "mref" else x.a[0]
                            if inner.k in ("mref", "ref"):
                                x = inner
                                continue
                            break
                        if x.k == "mref":
                            selfv = x
                        else:
                            tmp = self.alloc(st, base_v)
                            selfv = mk("mref", tmp, ())
                    else:
                        selfv = ref(base_v)
                else:
                    selfv = base_v
                outs = self.run_fn(fid, [selfv] + list(args), st)
                if tmp is not None:
                    for s, _ in outs:
                        s.mem.pop(tmp, None)
                return outs
        if base_v.k == "sym" and not any(a.k == "mref" for a in args) and dest_ty is not None:
            # an unknown callback: an uninterpreted function of its arguments
            st.note(("callback", base_v) + tuple(args))
            return [(st, self.d.mk_sym(dest_ty, ("call", base_v) + tuple(args)))]
        if base_v.k == "sym" or base_v.k == "undef":
            return self.havoc_call(st, {"path": "?callable", "kind": "ptr"}, [fv] + list(args), dest_ty)
        raise Undecided("call of " + base_v.k)

    def havoc_call(self, st, callee, args, dest_ty):
        """a call to something not modelled: an uninterpreted function of its arguments, clobbering
        whatever it can reach mutably"""
        path = callee.get("rpath") or callee["path"]
        d = self.d
        muts = []
        for a in args:
            self.collect_mrefs(st, a, muts)
        if (muts and not (len(muts) == 1 and re.match(r"^<?core::str::iter::(Split\w*|RSplit\w*|Lines)\b", path))) or \
                not muts and not self.pure_string_fn(path, args):
            self.unmodelled[path] = self.unmodelled.get(path, 0) + 1
            st.note("unmodelled:" + path)
        for i, m in enumerate(muts):
            old = self.load(st, m.a[0], m.a[1])
            try:
                self.store(st, m.a[0], m.a[1], self.scramble(old, ("hv", path, i, tuple(args), self.site())))
            except Undecided:
                raise
        key = ("app", path) + tuple(args) + ((self.site(),) if muts else ())
        return [(st, d.mk_sym(dest_ty, key))]

    STRFNS = frozenset("""trim trim_start trim_end trim_matches trim_start_matches trim_end_matches to_lowercase
        to_uppercase to_ascii_lowercase to_ascii_uppercase replace replacen strip_prefix strip_suffix split_once
        rsplit_once starts_with ends_with contains eq_ignore_ascii_case is_ascii split_whitespace lines split rsplit
        splitn rsplitn split_terminator""".split())

    def pure_string_fn(self, path, args):
        """library functions of strings: an uninterpreted function of an arbitrary string is exact enough to tell
        the result from the string itself (each of them changes, or tells apart, some strings)"""
        if not re.match(r"^(core|alloc)::str(::<impl str>)?::(<impl str>::)?\w+$", path) or path.split("::")[-1] not in self.STRFNS:
            return False
        v = args[0]
        while v.k == "ref":
            v = v.a[0]
        return v.k == "seq" and any(g.k == "sub" for g in v.a[0])

    def collect_mrefs(self, st, v, out):
        if v.k == "mref":
            out.append(v)
        elif v.k == "ref":
            pass
        elif v.k == "agg":
            for x in v.a[2]:
                self.collect_mrefs(st, x, out)

    def scramble(self, v, key):
        d = self.d
        if v.k == "int":
            return ia(atom("u", mkkey(key)))
        if v.k == "seq":
            for g in v.a[0]:
                if g.k == "sub":
                    return d.whole(base(g.a[0].a[0], key))
                if g.k == "one" and g.a[0].k in ("sym", "agg"):
                    return d.whole(base(g.a[0].a[0], key))
            raise Undecided("unmodelled mutation of a sequence")
        if v.k in ("agg", "sym") and v.a[0] is not None:
            return mk("sym", v.a[0], key)
        if v.k in ("tt", "ff", "bv", "ge", "eq0", "not"):
            return mk("bv", key)
        return v

    # ------------------------------------------------------------ loops
    def loop(self, info, depth, head, body, entry):
        key = (tuple(self.stack), info.f["id"], head)

        def run(st):
            rets, exits, backs = self.region(info, depth, body, head, {head: [st]}, head)
            bs = self.at_block(info, depth, head, backs)
            ex = [((None, None), r) for r in rets]
            for t, ss in exits.items():
                ex.extend(((t, None), s) for s in ss)
            return bs, ex

        ex = self.run_loop(key, entry, run, where=(info.f["path"], head))
        rets, exits = [], {}
        for (t, _), s in ex:
            if t is None:
                rets.append(s)
            else:
                exits.setdefault(t, []).append(s)
        return rets, exits, []

    def run_loop(self, key, entry, body, where=None):
        from .loops import LoopRun
        return LoopRun(self, key, entry, body, where).run()


class FnBox(object):
    _c = {}

    def __new__(cls, info):
        k = repr(sorted((a, str(b)) for a, b in info.items()))
        r = cls._c.get(k)
        if r is None:
            r = object.__new__(cls)
            r.info = info
            r.key = k
            cls._c[k] = r
        return r

    def __hash__(self):
        return hash(self.key) & 0xFFFFFFF

    def __repr__(self):
        return "fn " + (self.info.get("rpath") or self.info["path"])


def repr_root(r):
    return repr_root2(r)


def repr_root2(r):
    return str(r)
