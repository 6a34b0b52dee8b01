"""Program facts, abstract values and abstract states."""
from .terms import *
from . import terms, lin

U64 = 1 << 64


BOOLS = ("tt", "ff", "bv", "ge", "eq0", "not", "and", "or", "isvar", "eqd")


class Undecided(Exception):
    """the engine met something it does not model precisely enough to decide"""


def last(path):
    return path.split("::")[-1]


class Prog(object):
    def __init__(self, facts):
        self.raw = facts
        self.types = facts["types"]
        terms.TYPES[0] = self.types
        self.fns = {f["id"]: f for f in facts["fns"]}
        self.items = facts["items"]
        self.by_path = {}
        for it in self.items:
            self.by_path.setdefault(it["path"], []).append(it)
        self.node_ty = None
        self.mark_ty = None
        self._adt = {}
        for i, t in enumerate(self.types):
            if t["k"] == "adt":
                self._adt.setdefault(last(t["path"]), []).append(i)
        for it in self.items:
            tr = it.get("trait")
            if tr and last(tr) == "Node" and tr.startswith("prosemirror"):
                self.node_ty = self.find_ty_str(it["self_ty"])
            if tr and last(tr) == "Mark" and tr.startswith("prosemirror"):
                self.mark_ty = self.find_ty_str(it["self_ty"])
            if tr and last(tr) == "NodeType" and tr.startswith("prosemirror"):
                self.ntype_ty = self.find_ty_str(it["self_ty"])
            if tr and last(tr) == "ContentMatch" and tr.startswith("prosemirror"):
                self.cmatch_ty = self.find_ty_str(it["self_ty"])
        self.usize = next(i for i, t in enumerate(self.types) if t["k"] == "int" and t["name"] == "usize")
        self.boolty = next(i for i, t in enumerate(self.types) if t["k"] == "bool")
        self.charty = next(i for i, t in enumerate(self.types) if t["k"] == "char")
        self.strty = next(i for i, t in enumerate(self.types) if t["k"] == "str")
        # node variants by shape
        self.node_vars = self.types[self.node_ty]["variants"]
        self.CONTENT, self.TEXT, self.LEAF = set(), set(), set()
        for vi, v in enumerate(self.node_vars):
            shape = "leaf"
            for f in v["fields"]:
                if self.has_fragment(f["ty"]):
                    shape = "content"
                elif self.adt_name(f["ty"]) == "TextNode":
                    shape = "text"
            {"leaf": self.LEAF, "content": self.CONTENT, "text": self.TEXT}[shape].add(vi)
        self.CONTENT, self.TEXT, self.LEAF = map(frozenset, (self.CONTENT, self.TEXT, self.LEAF))
        self.nt_of_node = {}
        nts = [v["name"] for v in self.types[self.ntype_ty]["variants"]]
        for vi, v in enumerate(self.node_vars):
            if v["name"] in nts:
                self.nt_of_node[vi] = nts.index(v["name"])

    def find_ty_str(self, s):
        for i, t in enumerate(self.types):
            if t["str"] == s:
                return i
        return None

    def find_adt(self, name, pred=None):
        for i in self._adt.get(name, []):
            t = self.types[i]
            if not t["path"].startswith("prosemirror"):
                continue
            if "freeze" not in t:  # still generic
                continue
            if pred is None or pred(t):
                return i
        return None

    def adt_name(self, ty):
        t = self.types[ty]
        return last(t["path"]) if t["k"] == "adt" else None

    def is_local_adt(self, ty, name=None):
        t = self.types[ty]
        return t["k"] == "adt" and t["path"].startswith("prosemirror") and (name is None or last(t["path"]) == name)

    def has_fragment(self, ty):
        if self.is_local_adt(ty, "Fragment"):
            return True
        t = self.types[ty]
        if t["k"] == "adt" and t["path"].startswith("prosemirror") and t["akind"] == "struct":
            return any(self.has_fragment(f["ty"]) for f in t["variants"][0]["fields"])
        return False

    def fields(self, ty, v=0):
        t = self.types[ty]
        if t["k"] == "adt":
            vs = t["variants"]
            return vs[v]["fields"] if v < len(vs) else []
        if t["k"] == "tuple":
            return [{"name": str(i), "ty": x} for i, x in enumerate(t["elems"])]
        if t["k"] == "closure":
            return [{"name": str(i), "ty": x} for i, x in enumerate(t["upvars"])]
        return []

    def field_tys(self, ty, v=0):
        return [f["ty"] for f in self.fields(ty, v)]

    def field_ix(self, ty, name, v=0):
        for i, f in enumerate(self.fields(ty, v)):
            if f["name"] == name:
                return i
        return None

    def is_enum(self, ty):
        t = self.types[ty]
        return t["k"] == "adt" and t["akind"] == "enum"

    def nvariants(self, ty):
        return len(self.types[ty]["variants"])

    def variant_ix(self, ty, name):
        for i, v in enumerate(self.types[ty]["variants"]):
            if v["name"] == name:
                return i
        return None

    def seq_elem(self, ty):
        """element type if `ty` is a sequence type (Vec, slice, array, String, str)"""
        t = self.types[ty]
        if t["k"] in ("slice", "array"):
            return t["elem"]
        if t["k"] == "str":
            return self.charty
        if t["k"] == "adt":
            if t["path"] == "alloc::vec::Vec":
                return t["args"][0]
            if t["path"] == "alloc::string::String":
                return self.charty
        return None

    def opt_ty(self, inner):
        for i, t in enumerate(self.types):
            if t["k"] == "adt" and t["path"].endswith("option::Option") and t["args"] == [inner]:
                return i
        return None


class Dom(object):
    def __init__(self, prog):
        self.p = prog
        self._sym_cache = {}

    # ------------------------------------------------------------ construction
    def mk_sym(self, ty, key):
        p = self.p
        t = p.types[ty]
        k = t["k"]
        if k == "int":
            return ia(atom("v" if t["signed"] else "u", mkkey(key)))
        if k == "char":
            return ia(atom("ch", mkkey(key)))
        if k == "bool":
            return mk("bv", key)
        if k == "ref" and not t["mut"]:
            return ref(self.mk_sym(t["elem"], ("deref", key)))
        if k == "tuple" and not t["elems"]:
            return mk("agg", ty, 0, ())
        if k == "never":
            return UNDEF
        e = p.seq_elem(ty)
        if e is not None:
            b = base(e, key)
            if k == "array" and t.get("len") is not None and t["len"] <= 8:
                return self.seq([self.seg_elem(b, num(i)) for i in range(t["len"])])
            return self.seq([mk("sub", b, ZERO, self.blen(b))])
        if k == "adt" and t["akind"] == "enum" and len(t["variants"]) == 1 and not t["variants"][0]["fields"]:
            return mk("agg", ty, 0, ())
        return mk("sym", ty, key)

    def blen(self, b):
        return ia(atom("len", b))

    def elem(self, b, idx):
        k = b.a[1]
        if isinstance(k, tuple) and k and k[0] == "mapseq":
            x = self.elem(k[1], idx)
            if x.k == "int":
                return self.subst(k[2], {atom("ch", mkkey(("generic",))): x})
            return self.subst(k[2], {mk("sym", x.a[0], ("generic",)): x})
        return self.mk_sym(b.a[0], ("elem", b, idx))

    def seg_elem(self, b, idx):
        return mk("sub", b, idx, addc(idx, 1))

    def whole(self, b):
        return self.seq([mk("sub", b, ZERO, self.blen(b))])

    def unit(self):
        for i, t in enumerate(self.p.types):
            if t["k"] == "tuple" and not t["elems"]:
                self._unit = mk("agg", i, 0, ())
                self.unit = lambda: self._unit
                return self._unit

    # ------------------------------------------------------------ fields
    def proj(self, v, i, variant=0):
        k = v.k
        if k == "agg":
            if v.a[1] != variant and self.p.is_enum(v.a[0]):
                return UNDEF
            return v.a[2][i] if i < len(v.a[2]) else UNDEF
        if k == "sym":
            return self.sym_field(v, variant, i)
        if k == "undef":
            return UNDEF
        raise Undecided("field %s of %s" % (i, v.k))

    def sym_field(self, s, variant, i):
        p = self.p
        ty, key = s.a
        fts = p.field_tys(ty, variant)
        if i >= len(fts):
            raise Undecided("no field %s in %s" % (i, p.types[ty]["str"]))
        ft = fts[i]
        nm = p.adt_name(ty)
        if ty == p.node_ty:
            if isinstance(key, tuple) and key[0] == "copyf":
                if p.is_local_adt(ft, "Fragment"):
                    return key[2]
                if p.has_fragment(ft):
                    o = self.sym_field(key[1], variant, i) if key[1].k == "sym" else self.proj(key[1], i, variant)
                    return mk("agg", ft, 0, tuple(
                        key[2] if p.is_local_adt(x, "Fragment") else self.proj(o, j)
                        for j, x in enumerate(p.field_tys(ft))))
                return self.sym_field(key[1], variant, i)
            if p.is_local_adt(ft) and p.types[ft]["akind"] == "struct" and p.has_fragment(ft):
                return mk("agg", ft, 0, tuple(self.mk_sym(x, ("nf", s, x)) for x in p.field_tys(ft)))
            return self.mk_sym(ft, ("nf", s, ft))
        if nm == "Fragment" and p.is_local_adt(ty):
            b = self.frag_base(s)
            return self.whole(b) if p.seq_elem(ft) is not None else self.total(b, "size")
        if nm == "Text" and p.is_local_adt(ty):
            b = self.text_base(s)
            return self.whole(b) if p.seq_elem(ft) is not None else self.total(b, "U")
        if p.types[ty]["k"] == "adt":
            return self.mk_sym(ft, ("fld", s, variant, p.fields(ty, variant)[i]["name"]))
        return self.mk_sym(ft, ("fld", s, variant, i))

    def frag_base(self, f):
        return base(self.p.node_ty, ("inner", f))

    def text_base(self, t):
        return base(self.p.charty, ("chars", t))

    def expand(self, s, variant):
        """an explicit aggregate for a symbolic struct / enum value known to be `variant`"""
        n = len(self.p.field_tys(s.a[0], variant))
        return mk("agg", s.a[0], variant, tuple(self.sym_field(s, variant, i) for i in range(n)))

    def named(self, v, name, variant=0):
        i = self.p.field_ix(v.a[0], name, variant)
        if i is None:
            raise Undecided("no field %s" % name)
        return self.proj(v, i, variant)

    # ------------------------------------------------------------ measures
    def P(self, b, m, idx):
        """sum of measure m over b[0..idx]"""
        c, ts = idx.a
        x = mk("int", 0, ts)
        r = ZERO if not ts else ia(atom("P", b, m, x))
        if abs(c) > 64:
            return ia(atom("P", b, m, idx))
        if c > 0:
            for k in range(c):
                r = add(r, self.measure(self.elem(b, addc(x, k)), m))
        elif c < 0:
            for k in range(-c):
                r = sub(r, self.measure(self.elem(b, addc(x, -1 - k)), m))
        return r

    def total(self, b, m):
        return self.P(b, m, self.blen(b))

    def measure(self, v, m):
        if m == "size":
            return self.size(v)
        if m in ("U", "B"):
            if v.k == "int" and is_const(v):
                c = v.a[0]
                if m == "U":
                    return num(2 if c > 0xFFFF else 1)
                return num(1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4)
            if v.k == "int" and v.a[0] == 0 and len(v.a[1]) == 1 and v.a[1][0][1] == 1:
                return ia(atom("m" + m, v.a[1][0][0]))
            raise Undecided("measure of %s" % show(v))
        raise Undecided("measure " + m)

    def size(self, n):
        """node_size of a node value"""
        if n.k == "agg":
            v = n.a[1]
            p = self.p
            if v in p.CONTENT:
                return addc(self.fsize(self.node_frag(n)), 2)
            if v in p.TEXT:
                return self.tlen(self.node_text(n))
            return ONE
        if n.k == "sym":
            if isinstance(n.a[1], tuple) and n.a[1][0] == "copyf":
                return addc(self.fsize(n.a[1][2]), 2)
            return ia(atom("size", n))
        raise Undecided("size of " + n.k)

    def node_frag(self, n, variant=None):
        """the child fragment of a content-bearing node value"""
        p = self.p
        if n.k == "sym":
            if isinstance(n.a[1], tuple) and n.a[1][0] == "copyf":
                return n.a[1][2]
            return mk("sym", p.find_adt("Fragment"), ("nf", n, p.find_adt("Fragment")))
        v = n.a[1]
        for i, ft in enumerate(p.field_tys(n.a[0], v)):
            if p.is_local_adt(ft, "Fragment"):
                return n.a[2][i]
            if p.has_fragment(ft):
                for j, f2 in enumerate(p.field_tys(ft)):
                    if p.is_local_adt(f2, "Fragment"):
                        return self.proj(n.a[2][i], j)
        raise Undecided("no fragment in node")

    def with_frag(self, n, fr):
        """n with its children replaced by the fragment fr"""
        p = self.p
        if n.k == "agg":
            fs = list(n.a[2])
            for i, ft in enumerate(p.field_tys(n.a[0], n.a[1])):
                if p.is_local_adt(ft, "Fragment"):
                    fs[i] = fr
                elif p.has_fragment(ft):
                    inner = fs[i]
                    gs = [self.proj(inner, j) for j in range(len(p.field_tys(ft)))]
                    for j, f2 in enumerate(p.field_tys(ft)):
                        if p.is_local_adt(f2, "Fragment"):
                            gs[j] = fr
                    fs[i] = mk("agg", ft, 0, tuple(gs))
            return mk("agg", n.a[0], n.a[1], tuple(fs))
        if fr is self.node_frag(n):
            return n
        if isinstance(n.a[1], tuple) and n.a[1][0] == "copyf":
            n = n.a[1][1]
        if fr is self.node_frag(n):
            return n
        return mk("sym", p.node_ty, ("copyf", n, fr))

    def ntype(self, n):
        p = self.p
        if n.k == "agg":
            return mk("agg", p.ntype_ty, p.nt_of_node[n.a[1]], ())
        if isinstance(n.a[1], tuple) and n.a[1][0] == "copyf":
            return self.ntype(n.a[1][1])
        return mk("sym", p.ntype_ty, ("ntype", n))

    def node_textnode(self, n):
        p = self.p
        tn = p.find_adt("TextNode")
        if n.k == "sym":
            return mk("sym", tn, ("nf", n, tn))
        for i, ft in enumerate(p.field_tys(n.a[0], n.a[1])):
            if p.is_local_adt(ft, "TextNode"):
                return n.a[2][i]
        raise Undecided("no text node")

    def node_text(self, n):
        return self.named(self.node_textnode(n), "text")

    def fsize(self, f):
        """the size field of a fragment value"""
        p = self.p
        for i, ft in enumerate(p.field_tys(f.a[0])):
            if p.types[ft]["k"] == "int":
                return self.proj(f, i)
        raise Undecided("fragment without size")

    def finner(self, f):
        p = self.p
        for i, ft in enumerate(p.field_tys(f.a[0])):
            if p.seq_elem(ft) is not None:
                return self.proj(f, i)
        raise Undecided("fragment without children")

    def tlen(self, t):
        p = self.p
        for i, ft in enumerate(p.field_tys(t.a[0])):
            if p.types[ft]["k"] == "int":
                return self.proj(t, i)
        raise Undecided("text without length")

    def tchars(self, t):
        p = self.p
        for i, ft in enumerate(p.field_tys(t.a[0])):
            if p.seq_elem(ft) is not None:
                return self.proj(t, i)
        raise Undecided("text without content")

    # ------------------------------------------------------------ sequences
    def seq(self, segs):
        out = []
        for s in segs:
            if s.k == "one":
                v = s.a[0]
                e = self.as_elem(v)
                if e is not None:
                    s = self.seg_elem(*e)
                elif v.k == "int" and is_const(v) and False:
                    s = mk("lit", chr(v.a[0]))
            if s.k == "sub":
                if s.a[1] is s.a[2]:
                    continue
                if out and out[-1].k == "sub" and out[-1].a[0] is s.a[0] and out[-1].a[2] is s.a[1]:
                    s = mk("sub", s.a[0], out[-1].a[1], s.a[2])
                    out.pop()
                    if s.a[1] is s.a[2]:
                        continue
            elif s.k == "lit":
                if not s.a[0]:
                    continue
                if out and out[-1].k == "lit":
                    s = mk("lit", out.pop().a[0] + s.a[0])
            out.append(s)
        return mk("seq", tuple(out))

    def as_elem(self, v):
        if v.k == "sym" and isinstance(v.a[1], tuple) and v.a[1] and v.a[1][0] == "elem":
            return v.a[1][1], v.a[1][2]
        if v.k == "int" and v.a[0] == 0 and len(v.a[1]) == 1 and v.a[1][0][1] == 1:
            a = v.a[1][0][0]
            if a.a[0] in ("u", "v", "ch"):
                k = unkey(a.a[1])
                if isinstance(k, tuple) and k and k[0] == "elem":
                    return k[1], k[2]
        if v.k == "ref":
            pass
        return None

    def one(self, v):
        return mk("one", v)

    def lit(self, s):
        return self.seq([mk("lit", s)] if s else [])

    def seg_len(self, s):
        if s.k == "sub":
            return sub(s.a[2], s.a[1])
        if s.k == "one":
            return ONE
        return num(len(s.a[0]))

    def seq_len(self, v):
        r = ZERO
        for s in v.a[0]:
            r = add(r, self.seg_len(s))
        return r

    def seg_measure(self, s, m):
        if s.k == "sub":
            return sub(self.P(s.a[0], m, s.a[2]), self.P(s.a[0], m, s.a[1]))
        if s.k == "one":
            return self.measure(s.a[0], m)
        r = 0
        for ch in s.a[0]:
            r += self.measure(num(ord(ch)), m).a[0]
        return num(r)

    def seq_measure(self, v, m):
        r = ZERO
        for s in v.a[0]:
            r = add(r, self.seg_measure(s, m))
        return r

    def concat(self, *vs):
        segs = []
        for v in vs:
            segs.extend(v.a[0])
        return self.seq(segs)

    # ------------------------------------------------------------ substitution
    def subst(self, t, m, memo=None):
        """replace atoms / bases / syms of `m` (hash-consed keys) everywhere inside t"""
        if memo is None:
            memo = {}
        return self._sub(t, m, memo)

    def _sub(self, t, m, memo):
        if isinstance(t, tuple):
            return tuple(self._sub(x, m, memo) for x in t)
        if not isinstance(t, T):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t in m:
            r = m[t]
        else:
            k = t.k
            if k == "int":
                r = num(t.a[0])
                for a, c in t.a[1]:
                    r = add(r, scale(self._sub_atom(a, m, memo), c))
            elif k in ("tt", "ff", "undef", "lit"):
                r = t
            elif k == "ge":
                r = ge(self._sub(t.a[0], m, memo))
            elif k == "eq0":
                r = eq0(self._sub(t.a[0], m, memo))
            elif k == "not":
                r = b_not(self._sub(t.a[0], m, memo))
            elif k == "and":
                r = b_and(*self._sub(t.a, m, memo))
            elif k == "or":
                r = b_or(*self._sub(t.a, m, memo))
            elif k == "seq":
                segs = []
                for s in t.a[0]:
                    s2 = self._sub(s, m, memo)
                    if s2.k == "seq":
                        segs.extend(s2.a[0])
                    else:
                        segs.append(s2)
                r = self.seq(segs)
            elif k == "sub":
                lo, hi = self._sub(t.a[1], m, memo), self._sub(t.a[2], m, memo)
                v = self._sub(t.a[0], m, memo)
                if v.k == "base":
                    r = mk("sub", v, lo, hi)
                elif lo is ZERO and hi is self.seq_len(v):
                    r = v
                else:
                    r = self.seq_slice(None, v, lo, hi)
                    if r is None:
                        raise Undecided("substitution under a partial range")
            elif k == "sym":
                key = t.a[1]
                k2 = self._sub(key, m, memo)
                if k2 == key:
                    r = t
                else:
                    r = self.resym(t.a[0], k2)
            elif k == "base":
                k2 = self._sub(t.a[1], m, memo)
                if k2 == t.a[1]:
                    r = t
                elif k2[0] == "inner" and k2[1].k == "agg":
                    r = self.finner(k2[1])
                elif k2[0] == "chars" and k2[1].k == "agg":
                    r = self.tchars(k2[1])
                elif k2[0] == "fld" and isinstance(k2[1], T) and k2[1].k == "agg":
                    r = self.resym(None, k2)
                else:
                    r = mk("base", t.a[0], k2)
            else:
                a2 = tuple(self._sub(x, m, memo) for x in t.a)
                r = t if a2 == t.a else mk(k, *a2)
        memo[t] = r
        return r

    def resym(self, ty, key):
        """rebuild a symbolic value after its key changed (the parent may have become explicit)"""
        if isinstance(key, tuple) and key:
            if key[0] == "fld" and isinstance(key[1], T) and key[1].k == "agg":
                i = self.p.field_ix(key[1].a[0], key[3], key[2]) if isinstance(key[3], str) else key[3]
                return self.proj(key[1], i, key[2])
            if key[0] == "elem" and isinstance(key[1], T) and key[1].k == "seq":
                v = self.seq_get(None, key[1], key[2])
                if v is not None:
                    return v
                raise Undecided("element after substitution")
            if key[0] == "nf" and isinstance(key[1], T):
                n = key[1]
                p = self.p
                if n.k == "agg" or (n.k == "sym" and isinstance(n.a[1], tuple) and n.a[1][0] == "copyf"):
                    if p.is_local_adt(ty, "Fragment"):
                        return self.node_frag(n)
                    if n.k == "sym":
                        return self.resym(ty, ("nf", n.a[1][1], ty))
                    for i, ft in enumerate(p.field_tys(n.a[0], n.a[1])):
                        if ft == ty:
                            return n.a[2][i]
                        if p.is_local_adt(ft) and p.has_fragment(ft):
                            for j, f2 in enumerate(p.field_tys(ft)):
                                if f2 == ty:
                                    return self.proj(n.a[2][i], j)
            if key[0] == "ntype" and isinstance(key[1], T):
                return self.ntype(key[1])
            if key[0] == "mtype" and isinstance(key[1], T) and key[1].k == "agg":
                nm = self.p.types[key[1].a[0]]["variants"][key[1].a[1]]["name"]
                vi = self.p.variant_ix(ty, nm)
                if vi is not None:
                    return mk("agg", ty, vi, ())
            if key[0] == "inner" and isinstance(key[1], T) and key[1].k == "agg":
                raise Undecided("fragment base after substitution")
        return self.mk_sym(ty, key)

    def _sub_atom(self, a, m, memo):
        if a in m:
            return m[a]
        r = memo.get(a)
        if r is not None:
            return r
        n = a.a[0]
        if n == "P":
            idx = self._sub(a.a[3], m, memo)
            v = self._sub(a.a[1], m, memo)
            if v.k == "base":
                r = self.P(v, a.a[2], idx)
            elif idx is self.seq_len(v):
                r = self.seq_measure(v, a.a[2])
            else:
                w = self.seq_slice(None, v, ZERO, idx)
                if w is None:
                    raise Undecided("prefix sum after substitution")
                r = self.seq_measure(w, a.a[2])
        elif n == "len":
            v = self._sub(a.a[1], m, memo)
            r = self.blen(v) if v.k == "base" else self.seq_len(v)
        elif n == "size":
            v = self._sub(a.a[1], m, memo)
            r = self.size(v)
        elif n in ("mU", "mB"):
            v = self._sub_atom(a.a[1], m, memo)
            r = self.measure(v, n[1])
        elif n in ("u", "v", "ch"):
            key = unkey(a.a[1])
            k2 = self._sub(key, m, memo)
            if k2 == key:
                r = ia(a)
            elif isinstance(k2, tuple) and k2 and k2[0] == "fld" and k2[1].k == "agg":
                i = self.p.field_ix(k2[1].a[0], k2[3], k2[2]) if isinstance(k2[3], str) else k2[3]
                r = self.proj(k2[1], i, k2[2])
            elif isinstance(k2, tuple) and k2 and k2[0] == "elem" and k2[1].k == "seq":
                r = self.seq_get(None, k2[1], k2[2])
                if r is None:
                    raise Undecided("element after substitution")
            else:
                r = ia(atom(n, mkkey(k2)))
        else:
            a2 = tuple(self._sub(x, m, memo) for x in a.a)
            r = ia(mk("A", *a2))
        memo[a] = r
        return r

    # ------------------------------------------------------------ indexed access
    def seq_get(self, st, v, idx):
        segs = v.a[0]
        if len(segs) == 1 and segs[0].k == "sub":
            return self.elem(segs[0].a[0], add(segs[0].a[1], idx))
        loc = self.locate(st, v, idx)
        if loc is None:
            return None
        i, off = loc
        return self.seg_get(segs[i], off)

    def seg_get(self, s, off):
        if s.k == "one":
            return s.a[0]
        if s.k == "sub":
            return self.elem(s.a[0], add(s.a[1], off))
        if s.k == "lit" and is_const(off) and 0 <= off.a[0] < len(s.a[0]):
            return num(ord(s.a[0][off.a[0]]))
        return None

    def locate(self, st, v, idx):
        """(segment index, offset inside) of element idx; None if not determined"""
        o = ZERO
        segs = v.a[0]
        for i, s in enumerate(segs):
            l = self.seg_len(s)
            d = sub(idx, o)
            lo = ge(d)
            hi = ge(addc(sub(add(o, l), idx), -1))
            if st is not None:
                lo, hi = st.decide(lo), st.decide(hi)
            else:
                lo, hi = {"tt": True, "ff": False}.get(lo.k), {"tt": True, "ff": False}.get(hi.k)
            if lo is True and hi is True:
                return i, d
            # from the end
            o = add(o, l)
        # try from the end: idx = len - k
        return None

    def cut_at(self, st, v, pos):
        """split v at element position pos -> (left segs, right segs) or None"""
        o = ZERO
        segs = list(v.a[0])
        for i, s in enumerate(segs):
            d = sub(pos, o)
            if d is ZERO or (st is not None and st.eq(pos, o)):
                return segs[:i], segs[i:]
            l = self.seg_len(s)
            inside_lo = is_const(d) and d.a[0] >= 0 or (st is not None and st.entails(d))
            rem = sub(l, d)
            inside_hi = is_const(rem) and rem.a[0] >= 0 or (st is not None and st.entails(rem))
            if len(segs) == 1 and st is None:
                inside_lo = inside_hi = True
            if inside_lo and inside_hi:
                if s.k == "sub":
                    mid = add(s.a[1], d)
                    return segs[:i] + [mk("sub", s.a[0], s.a[1], mid)], [mk("sub", s.a[0], mid, s.a[2])] + segs[i + 1:]
                if is_const(d) and s.k == "one":
                    if d.a[0] == 1:
                        return segs[: i + 1], segs[i + 1:]
                if is_const(d) and s.k == "lit":
                    return segs[:i] + [mk("lit", s.a[0][: d.a[0]])], [mk("lit", s.a[0][d.a[0]:])] + segs[i + 1:]
                if s.k == "one" and st is not None:
                    if st.eq(d, ONE):
                        return segs[: i + 1], segs[i + 1:]
            o = add(o, l)
        if pos is o or (st is not None and st.eq(pos, o)):
            return segs, []
        return None

    def seq_slice(self, st, v, lo, hi):
        segs = v.a[0]
        if len(segs) == 1 and segs[0].k == "sub":
            s = segs[0]
            return self.seq([mk("sub", s.a[0], add(s.a[1], lo), add(s.a[1], hi))])
        if not segs:
            return v
        c = self.cut_at(st, v, hi)
        if c is None:
            return None
        left = self.seq(c[0])
        c = self.cut_at(st, left, lo)
        if c is None:
            return None
        return self.seq(c[1])

    def seq_set(self, st, v, idx, new):
        """v with element idx replaced by the segments `new`"""
        c = self.cut_at(st, v, idx)
        if c is None:
            return None
        right = self.seq(c[1])
        c2 = self.cut_at(st, right, ONE)
        if c2 is None:
            return None
        return self.seq(list(c[0]) + list(new) + list(c2[1]))


_keys = {}


def mkkey(key):
    """atoms must carry hash-consed arguments; keep structured keys retrievable"""
    return mk("key", key)


def unkey(k):
    return k.a[0] if isinstance(k, T) and k.k == "key" else k


# ---------------------------------------------------------------- states
_links = {}


def links(f):
    """atoms by which a fact bears on others: its own, and the index of a prefix of a string (each character
    counts at least one unit)"""
    r = _links.get(f)
    if r is None:
        r = [a for a, _ in f.a[1]]
        for a in list(r):
            if a.a[0] == "P" and a.a[2] in ("U", "B"):
                r.extend(x for x, _ in a.a[3].a[1])
        _links[f] = r
    return r


class St(object):
    __slots__ = ("d", "mem", "facts", "eqs", "ne", "var", "bools", "log", "notes", "_pc")

    def __init__(self, d):
        self.d = d
        self.mem = {}
        self.facts = frozenset()
        self.eqs = frozenset()
        self.ne = frozenset()
        self.var = {}
        self.bools = {}
        self.log = ()
        self.notes = frozenset()
        self._pc = {}

    def copy(self):
        s = St(self.d)
        s.mem = dict(self.mem)
        s.facts = self.facts
        s.eqs = self.eqs
        s.ne = self.ne
        s.var = dict(self.var)
        s.bools = dict(self.bools)
        s.log = self.log
        s.notes = self.notes
        s._pc = self._pc
        return s

    def note(self, x):
        self.notes = self.notes | {x}

    # ---------------------------------------------------------- variants
    def variants(self, v):
        """possible variant indices of an enum value"""
        if v.k == "agg":
            return frozenset([v.a[1]])
        if v.k != "sym":
            return None
        p = self.d.p
        key = v.a[1]
        if isinstance(key, tuple) and key and key[0] == "ntype":
            vs = self.variants(key[1])
            return frozenset(p.nt_of_node[x] for x in vs)
        if isinstance(key, tuple) and key and key[0] in ("mtype", "copyf"):
            return self.variants(key[1])
        r = self.var.get(v)
        if r is None:
            r = frozenset(range(p.nvariants(v.a[0])))
            t = p.types[v.a[0]]
            if t["path"].endswith("result::Result"):
                # Result<_, !> and friends keep both variants; fine
                pass
        return r

    def refine(self, v, vs):
        """restrict an enum value to the variants vs; False if impossible"""
        cur = self.variants(v)
        new = cur & vs
        if not new:
            return False
        if new == cur:
            return True
        p = self.d.p
        key = v.a[1]
        if isinstance(key, tuple) and key and key[0] == "ntype":
            back = frozenset(x for x, y in p.nt_of_node.items() if y in new)
            return self.refine(key[1], back)
        if isinstance(key, tuple) and key and key[0] in ("mtype", "copyf"):
            return self.refine(key[1], new)
        self.var[v] = new
        self._pc = {}
        return True

    # ---------------------------------------------------------- arithmetic
    def axioms(self, atoms):
        d = self.d
        p = d.p
        cons, eqs = [], []
        work = list(atoms)
        seen = set()
        while work:
            a = work.pop()
            if a in seen:
                continue
            seen.add(a)
            n = a.a[0]

            def con(x):
                cons.append(x)
                for b, _ in x.a[1]:
                    if b not in seen:
                        work.append(b)

            def eq(x):
                eqs.append(x)
                for b, _ in x.a[1]:
                    if b not in seen:
                        work.append(b)

            if n in ("u", "len", "P", "size", "ch", "un"):
                con(ia(a))
            if n in ("mU", "mB"):
                ch = a.a[1]
                for f in self.eqs:  # the character is a known one
                    if len(f.a[1]) == 1 and f.a[1][0][0] is ch and abs(f.a[1][0][1]) == 1:
                        eq(sub(ia(a), d.measure(num(-f.a[0] * f.a[1][0][1]), n[1])))
            if n == "mU":
                con(addc(ia(a), -1))
                con(addc(neg(ia(a)), 2))
            elif n == "mB":
                con(addc(ia(a), -1))
                con(addc(neg(ia(a)), 4))
                u = ia(atom("mU", a.a[1]))
                con(sub(ia(a), u))
                con(addc(sub(u, ia(a)), 2))
            elif n == "P" and a.a[2] in ("U", "B"):
                con(sub(ia(a), a.a[3]))
                if a.a[2] == "B":
                    con(sub(ia(a), d.P(a.a[1], "U", a.a[3])))
            elif n == "size":
                v = a.a[1]
                vs = self.variants(v)
                if vs <= p.CONTENT:
                    eq(sub(ia(a), addc(d.fsize(d.node_frag(v)), 2)))
                elif vs <= p.TEXT:
                    eq(sub(ia(a), d.tlen(d.node_text(v))))
                elif vs <= p.LEAF:
                    eq(addc(ia(a), -1))
                elif not (vs & p.TEXT):
                    con(addc(ia(a), -1))
            extra = self.d.extra_axioms(a, self) if hasattr(self.d, "extra_axioms") else None
            if extra:
                for x in extra[0]:
                    con(x)
                for x in extra[1]:
                    eq(x)
        return cons, eqs, seen

    def _system(self, goal_neg):
        """all constraints relevant to goal_neg (a list of ints >= 0)"""
        facts = list(self.facts)
        eqs = list(self.eqs)
        # relevance closure over atoms
        rel = set()
        for g in goal_neg:
            rel.update(a for a, _ in g.a[1])
        if not goal_neg:  # the state as a whole
            for f in facts + eqs:
                rel.update(a for a, _ in f.a[1])
        changed = True
        use_f, use_e = set(), set()
        ax_c, ax_e = [], []
        while changed:
            changed = False
            for f in facts:
                if f not in use_f and any(a in rel for a in links(f)):
                    use_f.add(f)
                    rel.update(a for a, _ in f.a[1])
                    changed = True
            for f in eqs:
                if f not in use_e and any(a in rel for a in links(f)):
                    use_e.add(f)
                    rel.update(a for a, _ in f.a[1])
                    changed = True
            ax_c, ax_e, seen = self.axioms(rel)
            seen = set(seen)
            for a in list(seen):
                if a.a[0] == "P":
                    seen.update(x for x, _ in a.a[3].a[1])
                    seen.update(x for x, _ in self.d.blen(a.a[1]).a[1])
                elif a.a[0] == "size":
                    e = self.d.as_elem(a.a[1])
                    if e is not None:
                        seen.update(x for x, _ in e[1].a[1])
            if not seen <= rel:
                rel |= seen
                changed = True
        return list(use_f) + ax_c, list(use_e) + ax_e, rel

    def infeasible(self, extra):
        """facts and extra (ints >= 0) certainly unsatisfiable?"""
        cons, eqs, rel = self._system(extra)
        C = [lin.to_con(x) for x in cons] + [lin.to_con(x) for x in extra]
        E = [lin.to_con(x) for x in eqs]
        if lin._infeasible(C, E):
            return True
        # monotonicity of prefix sums
        ps = [a for a in rel if a.a[0] == "P"]
        lens = {}
        groups = {}
        for a in ps:
            groups.setdefault((a.a[1], a.a[2]), []).append(a.a[3])
        for g in extra:
            for a, _ in g.a[1]:
                e = self.d.as_elem(a.a[1]) if a.a[0] == "size" else None
                if e is not None:
                    ls = groups.setdefault((e[0], "size"), [])
                    if addc(e[1], 1) not in ls:
                        ls.insert(0, addc(e[1], 1))
        again = False
        for (b, m), idxs in groups.items():
            ls = [ZERO] + idxs
            ln = self.d.blen(b)
            if ln not in ls:
                ls.append(ln)
            if len(ls) > 8:
                ls = ls[:8]
            for i, x in enumerate(ls):
                for y in ls[i + 1:]:
                    for lo, hi in ((x, y), (y, x)):
                        if lo is ZERO and hi in (ln,):
                            known = True
                        else:
                            dlt = sub(hi, lo)
                            if is_const(dlt):
                                continue
                            known = self._lin(cons, eqs, extra, dlt)
                        if not known:
                            continue
                        px, py = self.d.P(b, m, lo), self.d.P(b, m, hi)
                        C.append(lin.to_con(sub(py, px)))
                        again = True
                        if self._lin(cons, eqs, extra, addc(sub(hi, lo), -1)):
                            me = self.d.measure(self.d.elem(b, lo), m)
                            c1, e1, _ = self.axioms([a for a, _ in me.a[1]])
                            C.append(lin.to_con(sub(sub(py, px), me)))
                            C.extend(lin.to_con(z) for z in c1)
                            E.extend(lin.to_con(z) for z in e1)
                            if m in ("U", "B"):
                                C.append(lin.to_con(sub(sub(py, px), sub(hi, lo))))
        # the same measure of elements at equal indices
        els = {}
        for a in rel:
            if a.a[0] in ("size", "mU", "mB"):
                e = self.d.as_elem(a.a[1]) if isinstance(a.a[1], T) and a.a[1].k in ("sym", "int") else None
                if e is not None:
                    els.setdefault((a.a[0], e[0]), []).append((a, e[1]))
        for (n, b), xs in els.items():
            for i, (a, x) in enumerate(xs[:6]):
                for c, y in xs[i + 1:6]:
                    dlt = sub(x, y)
                    if not is_const(dlt) and self._lin(cons, eqs, extra, dlt) and self._lin(cons, eqs, extra, neg(dlt)):
                        E.append(lin.to_con(sub(ia(a), ia(c))))
                        again = True
        if again:
            return lin._infeasible(C, E)
        return False

    def feasible(self):
        """False when the facts of this state are certainly contradictory"""
        r = self._pc.get("feasible")
        if r is None:
            r = not self.infeasible([])
            if r:
                for x in self.ne:
                    if self.entails(x) and self.entails(neg(x)):
                        r = False
                        break
            self._pc["feasible"] = r
        return r

    def _lin(self, cons, eqs, extra, goal):
        C = [lin.to_con(x) for x in cons] + [lin.to_con(x) for x in extra] + [lin.to_con(addc(neg(goal), -1))]
        # make sure the goal's own atoms are constrained
        c2, e2, _ = self.axioms([a for a, _ in goal.a[1]])
        C += [lin.to_con(x) for x in c2]
        return lin._infeasible(C, [lin.to_con(x) for x in eqs] + [lin.to_con(x) for x in e2])

    def entails(self, x):
        """x >= 0"""
        if is_const(x):
            return x.a[0] >= 0
        if x in self.facts:
            return True
        c = self._pc.get(x)
        if c is None:
            c = self.infeasible([addc(neg(x), -1)])
            self._pc[x] = c
        return c

    def eq(self, x, y):
        z = sub(x, y)
        if is_const(z):
            return z.a[0] == 0
        return self.entails(z) and self.entails(neg(z))

    def decide(self, b):
        if b is TT:
            return True
        if b is FF:
            return False
        k = b.k
        if k == "ge":
            if self.entails(b.a[0]):
                return True
            if self.entails(addc(neg(b.a[0]), -1)):
                return False
            return None
        if k == "eq0":
            x = b.a[0]
            if x in self.ne or neg(x) in self.ne:
                return False
            g, l = self.entails(x), self.entails(neg(x))
            if g and l:
                return True
            if self.entails(addc(x, -1)) or self.entails(addc(neg(x), -1)):
                return False
            return None
        if k == "not":
            r = self.decide(b.a[0])
            return None if r is None else not r
        if k == "and":
            rs = [self.decide(x) for x in b.a]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if k == "or":
            rs = [self.decide(x) for x in b.a]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if k == "isvar":
            vs = self.variants(b.a[0])
            if vs <= b.a[1]:
                return True
            if not (vs & b.a[1]):
                return False
            return None
        r = self.bools.get(b)
        if r is None and k == "eqd" and all(x.k == "discr" for x in b.a):
            va, vb = self.variants(b.a[0].a[0]), self.variants(b.a[1].a[0])
            if va is not None and vb is not None:
                if not (va & vb):
                    return False
                if len(va) == 1 and va == vb:
                    return True
        if r is None and k == "eqv":
            return self.eqv_decide(b.a[0], b.a[1])
        return r

    def eqv_decide(self, a, b):
        """structural equality of two values under the facts: True / False / None"""
        if a is b:
            return True
        r = self.bools.get(mk("eqv", a, b))
        if r is not None:
            return r
        r = self.bools.get(mk("eqv", b, a))
        if r is not None:
            return r
        if a.k == "int" and b.k == "int":
            return self.decide(eq0(sub(a, b)))
        if a.k == "ref" and b.k == "ref":
            return self.eqv_decide(a.a[0], b.a[0])
        ta = a.k in ("agg", "sym")
        tb = b.k in ("agg", "sym")
        if ta and tb:
            p = self.d.p
            ty = a.a[0]
            if p.is_enum(ty):
                va, vb = self.variants(a), self.variants(b)
                if not (va & vb):
                    return False
                if len(va) == 1 and va == vb:
                    v = next(iter(va))
                    if a.k == "sym" and b.k == "sym" and a.a[1] != b.a[1] and p.field_tys(ty, v):
                        # distinct opaque values: compare projections only if fieldless
                        return None
                    rs = [self.eqv_decide(self.d.proj(a, i, v), self.d.proj(b, i, v))
                          for i in range(len(p.field_tys(ty, v)))]
                    if any(r is False for r in rs):
                        return False
                    return True if all(r is True for r in rs) else None
                return None
            if a.k == "agg" or b.k == "agg":
                n = len(p.field_tys(ty))
                rs = [self.eqv_decide(self.d.proj(a, i), self.d.proj(b, i)) for i in range(n)]
                if any(r is False for r in rs):
                    return False
                return True if all(r is True for r in rs) else None
            return None
        if a.k == "seq" and b.k == "seq":
            if self.seq_eq(a, b):
                return True
            la, lb = self.d.seq_len(a), self.d.seq_len(b)
            if self.decide(eq0(sub(la, lb))) is False:
                return False
            if all(s.k == "lit" for s in a.a[0]) and all(s.k == "lit" for s in b.a[0]):
                return "".join(s.a[0] for s in a.a[0]) == "".join(s.a[0] for s in b.a[0])
            return None
        if a.k in BOOLS and b.k in BOOLS:
            x, y = self.decide(a), self.decide(b)
            return None if x is None or y is None else x == y
        return None

    def same(self, a, b):
        return self.eqv_decide(a, b) is True

    def seq_eq(self, a, b):
        """certainly equal sequences?"""
        d = self.d
        A, B = list(a.a[0]), list(b.a[0])
        n = 0
        while A or B:
            n += 1
            if n > 64:
                return False
            # drop segments known to be empty
            while A and A[0].k == "sub" and self.eq(A[0].a[1], A[0].a[2]):
                A.pop(0)
            while B and B[0].k == "sub" and self.eq(B[0].a[1], B[0].a[2]):
                B.pop(0)
            if not A or not B:
                return not A and not B
            x, y = A[0], B[0]
            if x is y:
                A.pop(0)
                B.pop(0)
                continue
            if x.k == "sub" and y.k == "sub" and x.a[0] is y.a[0] and self.eq(x.a[1], y.a[1]):
                if self.eq(x.a[2], y.a[2]):
                    A.pop(0)
                    B.pop(0)
                    continue
                if self.entails(sub(y.a[2], x.a[2])):
                    A.pop(0)
                    B[0] = mk("sub", y.a[0], x.a[2], y.a[2])
                    continue
                if self.entails(sub(x.a[2], y.a[2])):
                    B.pop(0)
                    A[0] = mk("sub", x.a[0], y.a[2], x.a[2])
                    continue
                return False
            if x.k == "lit" and y.k == "lit":
                k = min(len(x.a[0]), len(y.a[0]))
                if x.a[0][:k] != y.a[0][:k]:
                    return False
                A[0:1] = [mk("lit", x.a[0][k:])] if x.a[0][k:] else []
                B[0:1] = [mk("lit", y.a[0][k:])] if y.a[0][k:] else []
                continue
            # compare element by element
            hx, hy = self._head(x), self._head(y)
            if hx is None or hy is None:
                return False
            if not self.same(hx[0], hy[0]):
                return False
            A[0:1] = hx[1]
            B[0:1] = hy[1]
        return True

    def _head(self, s):
        d = self.d
        if s.k == "one":
            return s.a[0], []
        if s.k == "lit":
            return num(ord(s.a[0][0])), ([mk("lit", s.a[0][1:])] if len(s.a[0]) > 1 else [])
        if self.entails(addc(sub(s.a[2], s.a[1]), -1)):
            return d.elem(s.a[0], s.a[1]), [mk("sub", s.a[0], addc(s.a[1], 1), s.a[2])]
        return None

    # ---------------------------------------------------------- assumptions
    def assume(self, b):
        """-> list of states in which b holds (empty if impossible); may consume self"""
        r = self.decide(b)
        if r is False:
            return []
        if r is True:
            return [self]
        k = b.k
        if k == "ge":
            x = b.a[0]
            if self.ne and (x in self.ne or neg(x) in self.ne):
                x = addc(x, -1)  # not zero either
            self.facts = self.facts | {x}
            self._pc = {}
            return [self]
        if k == "eq0":
            self.eqs = self.eqs | {b.a[0]}
            self._pc = {}
            return [self]
        if k == "and":
            sts = [self]
            for x in b.a:
                sts = [s2 for s in sts for s2 in s.assume(x)]
            return sts
        if k == "or":
            out = []
            rest = self
            for i, x in enumerate(b.a):
                s = rest.copy()
                out.extend(s.assume(x))
                if i + 1 < len(b.a):
                    nx = rest.assume(b_not(x))
                    if len(nx) != 1:
                        if not nx:
                            break
                        # keep it simple: several remainders
                        for n in nx[1:]:
                            out.extend(n.assume(b_or(*b.a[i + 1:])))
                    rest = nx[0]
            return out
        if k == "isvar":
            return [self] if self.refine(b.a[0], b.a[1]) else []
        if k == "not":
            c = b.a[0]
            if c.k == "eq0":
                x = c.a[0]
                if self.entails(x):
                    self.facts = self.facts | {addc(x, -1)}
                elif self.entails(neg(x)):
                    self.facts = self.facts | {addc(neg(x), -1)}
                else:
                    self.ne = self.ne | {x}
                self._pc = {}
                return [self]
            if c.k == "and":
                return self.assume(b_or(*[b_not(x) for x in c.a]))
            if c.k == "or":
                return self.assume(b_and(*[b_not(x) for x in c.a]))
            if c.k == "isvar":
                vs = frozenset(range(self.d.p.nvariants(c.a[0].a[0]))) - c.a[1]
                return [self] if self.refine(c.a[0], vs) else []
            if c.k == "eqv":
                self._eqv_ne(c.a[0], c.a[1])
            self.bools[c] = False
            return [self]
        if k == "eqv":
            self.bools[b] = True
            return [self] if self._eqv_true(b.a[0], b.a[1]) else []
        self.bools[b] = True
        return [self]

    def _eqv_ne(self, x, y):
        # an enum value differing from a fieldless variant
        for u, w in ((x, y), (y, x)):
            while u.k == "ref":
                u = u.a[0]
            while w.k == "ref":
                w = w.a[0]
            if u.k == "sym" and w.k == "agg" and self.d.p.is_enum(u.a[0]) and not w.a[2]:
                self.refine(u, self.variants(u) - {w.a[1]})

    def _eqv_true(self, x, y):
        p = self.d.p
        if x.k == "ref" and y.k == "ref":
            return self._eqv_true(x.a[0], y.a[0])
        if x.k == "int" and y.k == "int":
            self.eqs = self.eqs | {sub(x, y)}
            self._pc = {}
            return True
        if x.k in ("agg", "sym") and y.k in ("agg", "sym"):
            if p.is_enum(x.a[0]):
                vs = self.variants(x) & self.variants(y)
                if not vs:
                    return False
                for z in (x, y):
                    if z.k == "sym" and not self.refine(z, vs):
                        return False
                if len(vs) == 1:
                    v = next(iter(vs))
                    if x.k == "agg" or y.k == "agg":
                        for i in range(len(p.field_tys(x.a[0], v))):
                            u, w = self.d.proj(x, i, v), self.d.proj(y, i, v)
                            if u is not w:
                                self.bools[mk("eqv", u, w)] = True
                                if not self._eqv_true(u, w):
                                    return False
            elif x.k == "agg" or y.k == "agg":
                for i in range(len(p.field_tys(x.a[0]))):
                    u, w = self.d.proj(x, i), self.d.proj(y, i)
                    if u is not w:
                        self.bools[mk("eqv", u, w)] = True
                        if not self._eqv_true(u, w):
                            return False
        if x.k == "seq" and y.k == "seq":
            self.eqs = self.eqs | {sub(self.d.seq_len(x), self.d.seq_len(y))}
            self._pc = {}
        return True
