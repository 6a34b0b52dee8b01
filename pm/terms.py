"""Hash-consed value domain of the abstract interpreter.

Everything is a `T(kind, args)`, compared by identity.  Kinds:

  int   (c, ((atom, coef), ...))      affine integer expression over atoms
  A     (name, ...)                   integer atom
  tt/ff ()                            booleans
  ge    (int)                         int >= 0
  eq0   (int)                         int == 0
  not   (b) / and (b..) / or (b..)
  bv    (key)                         opaque boolean
  agg   (ty, variant, fields)         struct / enum variant / tuple / closure / array value
  sym   (ty, key)                     opaque value of type `ty`, identified by `key`
  ref   (v)                           shared reference (a snapshot: there is no interior mutability)
  mref  (root, proj)                  mutable reference into abstract memory
  seq   (segs)                        finite sequence (Vec / slice / array-as-slice / String / str)
  base  (elemty, key)                 an opaque sequence
  sub   (base, lo, hi)                segment: base[lo..hi]
  one   (v)                           segment: one element
  lit   (str)                         segment: literal characters
  discr (v)                           discriminant of an enum value, as a switch operand
  undef ()
"""
from fractions import Fraction

_tab = {}
_next = [0]


class T(object):
    __slots__ = ("k", "a", "id")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __lt__(self, o):
        return self.id < o.id


def mk(k, *a):
    key = (k, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        _next[0] += 1
        t.id = _next[0]
        _tab[key] = t
    return t


TT = mk("tt")
FF = mk("ff")
UNDEF = mk("undef")


# ---------------------------------------------------------------- integers
def num(c):
    return mk("int", c, ())


ZERO = num(0)
ONE = num(1)


def atom(name, *a):
    return mk("A", name, *a)


def aff(c, d):
    items = sorted(((a, k) for a, k in d.items() if k != 0), key=lambda x: x[0].id)
    return mk("int", c, tuple(items))


def ia(at):
    """an atom as an integer expression"""
    return mk("int", 0, ((at, 1),))


def add(x, y):
    if not y.a[1]:
        if y.a[0] == 0:
            return x
        return mk("int", x.a[0] + y.a[0], x.a[1])
    if not x.a[1]:
        return mk("int", x.a[0] + y.a[0], y.a[1])
    d = dict(x.a[1])
    for a, k in y.a[1]:
        d[a] = d.get(a, 0) + k
    return aff(x.a[0] + y.a[0], d)


def scale(x, n):
    if n == 0:
        return ZERO
    return mk("int", x.a[0] * n, tuple((a, k * n) for a, k in x.a[1]))


def neg(x):
    return scale(x, -1)


def sub(x, y):
    return add(x, scale(y, -1))


def addc(x, c):
    return mk("int", x.a[0] + c, x.a[1])


def is_const(x):
    return x.k == "int" and not x.a[1]


# ---------------------------------------------------------------- booleans
def b_not(b):
    if b is TT:
        return FF
    if b is FF:
        return TT
    if b.k == "not":
        return b.a[0]
    if b.k == "ge":
        return ge(addc(neg(b.a[0]), -1))
    return mk("not", b)


def ge(x):
    """x >= 0"""
    if is_const(x):
        return TT if x.a[0] >= 0 else FF
    return mk("ge", x)


def eq0(x):
    if is_const(x):
        return TT if x.a[0] == 0 else FF
    # normal form: first coefficient positive
    if x.a[1][0][1] < 0:
        x = neg(x)
    return mk("eq0", x)


def b_and(*bs):
    out = []
    for b in bs:
        if b is FF:
            return FF
        if b is TT:
            continue
        if b.k == "and":
            out.extend(b.a)
        else:
            out.append(b)
    if not out:
        return TT
    if len(out) == 1:
        return out[0]
    return mk("and", *out)


def b_or(*bs):
    out = []
    for b in bs:
        if b is TT:
            return TT
        if b is FF:
            continue
        if b.k == "or":
            out.extend(b.a)
        else:
            out.append(b)
    if not out:
        return FF
    if len(out) == 1:
        return out[0]
    return mk("or", *out)


def ref(v):
    return mk("ref", v)


def base(elemty, key):
    return mk("base", elemty, key)


# ---------------------------------------------------------------- printing
TYPES = [None]


def _tyname(t):
    tt = TYPES[0]
    if tt is None or not isinstance(t, int):
        return str(t)
    r = tt[t]
    if r["k"] == "adt":
        return r["path"].split("::")[-1]
    return r["str"].split("::")[-1]


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 14:
        return "…"
    k = t.k
    if k == "int":
        out = []
        for a, c in t.a[1]:
            s = show(a, d + 1)
            if c == 1:
                out.append("+" + s)
            elif c == -1:
                out.append("-" + s)
            else:
                out.append("%+d*%s" % (c, s))
        if t.a[0] or not out:
            out.append("%+d" % t.a[0] if out else str(t.a[0]))
        r = "".join(out)
        return r[1:] if r.startswith("+") else r
    if k == "key":
        return show_key(t.a[0] if len(t.a) == 1 else t.a, d)
    if k == "A":
        n = t.a[0]
        if n in ("u", "ch"):
            return show(t.a[1], d + 1)
        if n == "v":
            return show(t.a[1], d + 1)
        if n == "P":
            return "Σ%s(%s[..%s])" % (t.a[2], show(t.a[1], d + 1), show(t.a[3], d + 1))
        return "%s(%s)" % (n, ",".join(show(x, d + 1) for x in t.a[1:]))
    if k == "tt":
        return "true"
    if k == "ff":
        return "false"
    if k == "ge":
        return "(%s >= 0)" % show(t.a[0], d + 1)
    if k == "eq0":
        return "(%s == 0)" % show(t.a[0], d + 1)
    if k == "agg":
        ty, v, fs = t.a
        nm = _tyname(ty)
        tt = TYPES[0]
        if tt is not None and isinstance(ty, int) and tt[ty]["k"] == "adt" and tt[ty]["akind"] == "enum":
            vs = tt[ty]["variants"]
            nm = vs[v]["name"] if v < len(vs) else "%s#%s" % (nm, v)
        return "%s{%s}" % (nm, ", ".join(show(x, d + 1) for x in fs))
    if k == "sym":
        return show_key(t.a[1], d + 1)
    if k == "ref":
        return "&" + show(t.a[0], d + 1)
    if k == "seq":
        return "[" + " ++ ".join(show(x, d + 1) for x in t.a[0]) + "]"
    if k == "base":
        return show_key(t.a[1], d + 1)
    if k == "sub":
        return "%s[%s..%s]" % (show(t.a[0], d + 1), show(t.a[1], d + 1), show(t.a[2], d + 1))
    if k == "one":
        return "<" + show(t.a[0], d + 1) + ">"
    if k == "lit":
        return repr(t.a[0])
    return "%s(%s)" % (k, ",".join(show(x, d + 1) for x in t.a))


def show_key(key, d):
    if isinstance(key, tuple) and key:
        h = key[0]
        if h == "arg":
            return str(key[1])
        if h == "nf":
            return "%s.%s" % (show(key[1], d), _tyname(key[2]))
        if h == "fld":
            return "%s.%s" % (show(key[1], d), key[-1] if len(key) == 3 else "%s.%s" % (key[2], key[3]))
        if h == "elem":
            return "%s[%s]" % (show(key[1], d), show(key[2], d))
        if h == "deref":
            return "*" + show_key(key[1], d)
        if h == "phi":
            return "φ%s" % (abs(hash(str(key))) % 10000,)
        return "%s(%s)" % (h, ",".join(show(x, d + 1) for x in key[1:]))
    return show(key, d)
