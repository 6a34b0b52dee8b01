"""Running functions of the crate in the abstract interpreter and judging their outcomes.

`Ctx` is one check run: it collects obligations, violations and undecided items for one property.
`run()` interprets one function on fresh symbolic arguments; calls to the public operations listed
in BOUNDARY are replaced by their specification (each specification is itself the obligation of the
property that owns the operation, checked with that operation's body opened up)."""
import os, pickle, sys, time, traceback
from .terms import *
from .dom import *
from .engine import Engine, FnBox
from . import models
from .models import strip, some, none, variant, range_of, by_class, norm

sys.setrecursionlimit(30000)


class Missing(Exception):
    """an anchor the property quantifies over is gone"""


class MissingPrivate(Exception):
    pass


class Split(Exception):
    """the specification depends on a condition this path does not decide: it must be met either way"""

    def __init__(self, cond):
        super().__init__("undecided condition")
        self.cond = cond


class SplitKind(Split):
    """... on the kind of a value"""

    def __init__(self, value, part):
        Exception.__init__(self, "undecided kind")
        self.value, self.part = value, frozenset(part)


class Run(object):
    pass


def apply_spec(spec, s, v, depth=6):
    """[(state, message)] of an outcome, split on the conditions the specification needs"""
    try:
        return [(s, spec(s, v))]
    except Split as e:
        if depth == 0:
            raise Undecided("too many undecided conditions")
        sts = []
        if isinstance(e, SplitKind):
            vs = s.variants(e.value)
            for part in (vs & e.part, vs - e.part):
                s1 = s.copy()
                if part and s1.refine(e.value, part):
                    sts.append(s1)
            if len(sts) > 1 and s.variants(e.value) in (x.variants(e.value) for x in sts):
                raise Undecided("kind of a value")
        else:
            for b in (e.cond, b_not(e.cond)):
                sts += s.copy().assume(b)
        return [x for s1 in sts if s1.feasible() for x in apply_spec(spec, s1, v, depth - 1)]


class Ctx(object):
    def __init__(self, prog, prop, tier="quick"):
        self.p = prog
        self.prop = prop
        self.tier = tier
        self.obligations = 0
        self.discharged = 0
        self.violations = []  # (key, where, message)
        self.undecided = []  # (where, reason)
        self.analysed = []  # functions opened up
        self.samples = []
        self.assumptions = set()
        self.counts = {}
        self.walls = {}
        self.extra = []
        self.serial = False
        self.budget = 60 if tier == "quick" else 400

    # ------------------------------------------------------------ work sharing
    def par(self, tasks, jobs=None):
        """run tasks [(label, fn(ctx))] in forked workers, merge their verdicts"""
        jobs = jobs or min(8, os.cpu_count() or 1, max(1, len(tasks)))
        todo = list(enumerate(tasks))
        if self.serial:
            saved = self.extra
            for _, (label, fn) in todo:
                self.extra = []
                self._guard(label, fn)
                saved.append((label, self.extra))
            self.extra = saved
            return
        kids = {}
        res = {}
        while todo or kids:
            while todo and len(kids) < jobs:
                i, (label, fn) = todo.pop(0)
                r, w = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.close(r)
                        sub_ = Ctx(self.p, self.prop, self.tier)
                        sub_.serial = True
                        t0 = time.time()
                        sub_._guard(label, fn)
                        data = pickle.dumps((sub_.obligations, sub_.discharged, sub_.violations, sub_.undecided,
                                             sub_.analysed, sub_.samples, sorted(sub_.assumptions), sub_.counts,
                                             time.time() - t0, sub_.extra))
                        with os.fdopen(w, "wb") as f:
                            f.write(data)
                    except BaseException:
                        traceback.print_exc()
                        code = 3
                    os._exit(code)
                os.close(w)
                kids[r] = (i, label, pid, [])
            import select
            rd, _, _ = select.select(list(kids), [], [])
            for fd in rd:
                chunk = os.read(fd, 1 << 16)
                if chunk:
                    kids[fd][3].append(chunk)
                    continue
                i, label, pid, buf = kids.pop(fd)
                os.close(fd)
                os.waitpid(pid, 0)
                res[i] = (label, b"".join(buf))
        for i in sorted(res):
            label, data = res[i]
            if not data:
                self.unk(label, "analysis process ended without a result")
                continue
            o, dsc, vio, und, ana, smp, asm, cnt, wall, ext = pickle.loads(data)
            self.obligations += o
            self.discharged += dsc
            for v in vio:
                if not any(x[0] == v[0] for x in self.violations):
                    self.violations.append(v)
            for u in und:
                if u not in self.undecided:
                    self.undecided.append(u)
            for a in ana:
                if a not in self.analysed:
                    self.analysed.append(a)
            self.samples.extend(smp[:max(3, 40 // max(1, len(tasks)))])
            self.assumptions.update(asm)
            for k, n in cnt.items():
                self.counts[k] = self.counts.get(k, 0) + n
            self.walls[label] = wall
            self.extra.append((label, ext))

    def _guard(self, label, fn):
        try:
            fn(self)
        except Missing as e:
            self.bad("missing:" + str(e), "/repo", "public operation %s not found in the compiled crate" % e)
        except MissingPrivate as e:
            self.unk(label, "internal function %s not found" % e)
        except Undecided as e:
            self.unk(label, str(e))
        except RecursionError:
            self.unk(label, "recursion limit of the analyser")
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as e:
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.unk(label, "analyser: %s: %s (%s:%s)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))

    # ------------------------------------------------------------ verdicts
    def ok(self, n=1, what=None):
        self.obligations += n
        self.discharged += n
        if what and len(self.samples) < 40:
            self.samples.append(what)

    def bad(self, key, where, msg):
        self.obligations += 1
        if not any(v[0] == key for v in self.violations):
            self.violations.append((key, where, msg))

    def unk(self, where, reason):
        self.obligations += 1
        if (where, reason) not in self.undecided:
            self.undecided.append((where, reason))

    def callers(self, owners):
        """owner paths of the functions from which one of `owners` can be reached"""
        if not hasattr(self.p, "_rev"):
            rev = {}

            def walk(x, own):
                if isinstance(x, dict):
                    if "path" in x and ("f" in x or "rpath" in x or "kind" in x):
                        g = self.p.fns.get(x.get("f"))
                        for tgt in (g["owner"] if g else None, x.get("rpath"), x.get("path")):
                            if tgt:
                                rev.setdefault(tgt, set()).add(own)
                    for y in x.values():
                        walk(y, own)
                elif isinstance(x, list):
                    for y in x:
                        walk(y, own)

            for f in self.p.fns.values():
                if f["local"]:
                    walk(f["blocks"], f["owner"])
            for it in self.p.items:  # a trait method called through its trait
                if it.get("trait"):
                    rev.setdefault(it["path"], set()).update(
                        rev.get("%s::%s" % (it["trait"], it["name"]), ()))
            self.p._rev = rev
        out, todo = set(), list(owners)
        while todo:
            o = todo.pop()
            for c in self.p._rev.get(o, ()):
                if c not in out:
                    out.add(c)
                    todo.append(c)
        return out

    def check(self, cond, key, where, msg, what=None):
        if cond:
            self.ok(1, what)
        else:
            self.bad(key, where, msg)
        return cond

    def covered(self, cond, path, key, where, msg):
        """a case that must be reached by some path; nothing is known when part of the analysis was undecided"""
        if not cond and self.was_undecided(path):
            self.unk(path, "not seen: " + msg)
            return False
        return self.check(cond, key, where, msg)

    def was_undecided(self, path):
        return any(w == path for w, _ in self.undecided)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    # ------------------------------------------------------------ anchors
    def items(self, name, owner=None, trait=None):
        """crate items called `name`: owner = ADT the impl is for, trait = trait it belongs to"""
        out = []
        for it in self.p.items:
            if it["name"] != name or not it.get("local", True):
                continue
            tr = it.get("trait") or it.get("in_trait")
            if trait is not None and (tr is None or last(norm(tr)) != trait):
                continue
            if trait is None and tr is not None and owner is not None and it.get("trait"):
                continue
            if owner is not None:
                st = it.get("self_ty")
                if st is None:
                    continue
                if last(norm(st.replace("&", ""))).strip() != owner:
                    continue
            elif trait is None and (it.get("self_ty") or it.get("in_trait")):
                continue
            out.append(it)
        return out

    def item(self, name, owner=None, trait=None, sig=None):
        its = self.items(name, owner, trait)
        if sig:
            its = [i for i in its if sig in i["sig"]]
        if trait and owner is None:
            d = [i for i in its if i.get("in_trait")]
            its = d or its
        if len(its) != 1:
            raise Missing("%s%s" % ((owner or trait or "") + "::" if (owner or trait) else "", name))
        return its[0]

    def has(self, *a, **k):
        try:
            self.item(*a, **k)
            return True
        except Missing:
            return False

    # ------------------------------------------------------------ running
    def args_for(self, eng, f, st, names=None, values=None):
        args = []
        d = eng.d
        for i in range(f["argc"]):
            ty = f["locals"][i + 1]
            nm = (names or {}).get(i, "a%d" % i)
            if values and values.get(i) is not None:
                args.append(values[i])
                continue
            t = self.p.types[ty]
            if t["k"] == "ref" and t["mut"]:
                root = ("arg", i)
                st.mem[root] = d.mk_sym(t["elem"], ("arg", nm))
                args.append(mk("mref", root, ()))
            elif t["k"] == "ref":
                args.append(ref(d.mk_sym(t["elem"], ("arg", nm))))
            elif t["k"] == "tuple" and len(t["elems"]) == 2 and all(self.p.adt_name(x) == "Bound" for x in t["elems"]):
                # a pair of bounds: the start excluded, the end included
                b = t["elems"][0]
                v = [self.p.variant_ix(b, x) for x in ("Excluded", "Included")]
                args.append(mk("agg", ty, 0, tuple(mk("agg", b, v[j], (d.mk_sym(
                    self.p.field_tys(b, v[j])[0], ("arg", nm + ".%d" % j)),)) for j in (0, 1))))
            else:
                args.append(d.mk_sym(ty, ("arg", nm)))
        return args

    def run(self, it, inst=0, values=None, names=None, assume=(), real=(), open_=(), bound=True, setup=None,
            keep=(), observers=(), recursion=True, only=None, quiet=False,
            budget=None, with_=None, hooks=(), opts=None):
        """-> Run(outs, panics, eng, args, st0) or None (undecided, recorded)"""
        insts = it["insts"]
        cand = [i for i in insts if i[0] == inst] or insts[:1]
        if not cand:
            raise Missing(it["path"] + " has no instance")
        fid = cand[0][1]
        f = self.p.fns[fid]
        eng = Engine(self.p)
        eng.opts["real"] = set(real)
        eng.opts.update(opts or {})
        eng.d.extra_axioms = extra_axioms(eng.d)
        if bound:
            B = dict(BOUNDARY)
            for k in open_:
                B.pop(k, None)
            if only is not None:
                B = {k: v for k, v in B.items() if k in only}
            if with_:
                B.update(with_)
            eng.bound = B
            eng.hooks.append(boundary_hook)
        eng.hooks.extend(hooks)
        eng.observers.extend(observers)
        if recursion:
            eng.recursion = rec_hook
        st = St(eng.d)
        if setup is not None:
            values = setup(eng, st) or values
        r = Run()
        r.args = self.args_for(eng, f, st, names, values)
        r.sym = [strip(eng, st, a) if a.k in ("ref", "mref") else a for a in r.args]
        for a in r.sym:  # an inclusive range that was not iterated over before
            if a.k == "sym" and self.p.adt_name(a.a[0]) == "RangeInclusive":
                for i, fl in enumerate(self.p.fields(a.a[0])):
                    if fl["name"] == "exhausted":
                        st = st.assume(mk("not", eng.d.proj(a, i)))[0]
        if assume:
            for fn in assume:
                sts = st.assume(fn(eng, st, r.sym))
                if len(sts) != 1:
                    raise Undecided("assumption splits")
                st = sts[0]
        r.st0 = st.copy()
        r.eng = eng
        r.it = it
        r.f = f
        r.d = eng.d
        t0 = time.time()
        eng.deadline = t0 + (budget or self.budget)
        try:
            outs = eng.run_fn(fid, list(r.args), st)
        except (Undecided, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
            if os.environ.get("PM_TRACE"):
                traceback.print_exc()
            if not quiet:
                self.unk(it["path"], "%s" % e if isinstance(e, Undecided) else "analyser: %s: %s" % (
                    type(e).__name__, str(e)[:200]))
            return None
        r.outs = [o for s, v in outs if s.feasible() for o in split_bool(s, v)]
        r.panics = eng.panics
        r.wall = time.time() - t0
        if it["path"] not in self.analysed:
            self.analysed.append(it["path"])
        return r

    def judge(self, run, key, spec, what=None):
        """spec(st, value) -> None when the outcome is as specified, else a message.
        Outcomes whose value is not exact (unmodelled calls) are recorded as undecided."""
        where = loc(run.it)
        for s, v in run.outs:
            try:
                msgs = [m for _, m in apply_spec(spec, s, v)]
            except Undecided as e:
                self.unk(run.it["path"], "outcome not comparable: %s" % e)
                continue
            msg = next((m for m in msgs if m is not None), None)
            if msg is None:
                self.ok(1, what)
                continue
            why = inexact(s, v)
            if why:
                self.unk(run.it["path"], "%s (%s)" % (msg, why))
                continue
            self.bad(key, where, "%s: %s" % (short(run.it["path"]), msg))

    def cover(self, run, key, cases, where=None):
        """each named case (name, cond(st,v)->bool) is reached by some outcome"""
        for name, f in cases:
            if any(f(s, v) for s, v in run.outs):
                self.ok(1)
            elif any(inexact(s, v) for s, v in run.outs) or self.was_undecided(run.it["path"]):
                self.unk(run.it["path"], "case %s not seen" % name)
            else:
                self.bad(key + ":" + name, loc(run.it), "%s never %s" % (short(run.it["path"]), name))


def split_bool(s, v):
    """an outcome whose truth value (or that of its only payload) is a comparison not decided on this path:
    one outcome for each answer"""
    if v.k == "agg" and len(v.a[2]) == 1 and v.a[2][0].k in COMPARISONS:
        return [(s1, mk("agg", v.a[0], v.a[1], (x,))) for s1, x in split_bool(s, v.a[2][0])]
    if v.k == "agg" and len(v.a[2]) == 1 and flag_of_loop(v.a[2][0]):
        return [(s1, mk("agg", v.a[0], v.a[1], (x,))) for s1, x in split_bool(s, v.a[2][0])]
    if not flag_of_loop(v) and (v.k not in COMPARISONS or mentions_bv(v)) or s.decide(v) is not None:
        return [(s, v)]
    return [(s1, x) for b, x in ((v, TT), (b_not(v), FF)) for s1 in s.copy().assume(b) if s1.feasible()]


def flag_of_loop(v):
    return v.k == "bv" and isinstance(v.a[0], tuple) and v.a[0][:1] == ("phi",)


COMPARISONS = ("ge", "eq0", "not", "and", "or")


def mentions_bv(v):
    return v.k == "bv" or v.k in ("not", "and", "or") and any(mentions_bv(x) for x in v.a)


def loc(it):
    sp = it.get("span") or ["?", 0]
    return "%s (%s)" % (short(it["path"]), sp[0])


def short(path):
    return path.replace("prosemirror::", "").replace("<S as model::schema::Schema>", "S")


def inexact(s, v):
    """why this outcome may be imprecise, or None"""
    for n in s.notes:
        if isinstance(n, str) and n.startswith("unmodelled:"):
            return n
    return None


# ---------------------------------------------------------------- views of values
def cow(eng, v):
    """contents of a Cow value: the value behind it"""
    if v.k == "agg" and last(eng.p.types[v.a[0]]["path"]) == "Cow":
        x = v.a[2][0]
        return x.a[0] if x.k == "ref" else x
    return v


def res(eng, v):
    """('Ok'|'Err'|'Some'|'None', payload) of an explicit Result/Option value"""
    if v.k != "agg":
        return None, None
    t = eng.p.types[v.a[0]]
    if t["k"] != "adt" or t["akind"] != "enum":
        return None, None
    nm = t["variants"][v.a[1]]["name"]
    return nm, (v.a[2][0] if v.a[2] else None)


def vname(eng, v):
    if v.k != "agg":
        return None
    t = eng.p.types[v.a[0]]
    if t["k"] == "adt" and t["akind"] == "enum":
        return t["variants"][v.a[1]]["name"]
    return None


def field(eng, v, name):
    return eng.d.named(v, name)


# ---------------------------------------------------------------- boundaries
def ident(c):
    tr = c.get("trait")
    nm = c.get("name") or last(norm(c["path"]))
    if tr and tr.startswith("prosemirror::"):
        return last(norm(tr)), nm
    if tr:
        return None
    if not (c.get("rlocal") or c.get("local") or c["path"].startswith("prosemirror")):
        return None
    comps = norm(c["path"]).split("::")
    return (comps[-2] if len(comps) > 1 else ""), nm


def boundary_hook(eng, st, c, args, dty):
    k = ident(c)
    if k is None:
        return None
    f = eng.bound.get(k)
    if f is None:
        return None
    if c.get("f") in eng.active and len([x for x in eng.active if x == c.get("f")]) == len(eng.active):
        pass
    return f(eng, st, c, args, dty)


BOUNDARY = {}


def boundary(owner, name):
    def deco(f):
        BOUNDARY[(owner, name)] = f
        return f
    return deco


def result(eng, st, dty, okval, tag, args, err=True):
    """fork a fallible operation: Ok(okval) | Err(opaque), the failure is remembered in notes"""
    out = []
    okv, errv = eng.p.variant_ix(dty, "Ok"), eng.p.variant_ix(dty, "Err")
    if err:
        s2 = st.copy()
        s2.note(("fail", tag) + tuple(args))
        et = eng.p.field_tys(dty, errv)[0]
        out.append((s2, mk("agg", dty, errv, (eng.d.mk_sym(et, ("err", tag) + tuple(args)),))))
    st.note(("done", tag) + tuple(args))
    out.append((st, mk("agg", dty, okv, (okval,))))
    return out


def val(eng, st, v):
    return strip(eng, st, v)


@boundary("Fragment", "cut")
def b_cut(eng, st, c, a, t):
    f = val(eng, st, a[0])
    if f.k not in ("sym", "agg"):
        return None
    lo, hi = range_of(eng, st, a[1], eng.d.fsize(f))
    return [(st, cutf(eng, st, f, lo, hi))]


def cutf(eng, st, f, lo, hi):
    if st.eq(lo, ZERO) and st.eq(hi, eng.d.fsize(f)):
        return f
    return mk("sym", eng.p.find_adt("Fragment"), ("cut", f, lo, hi))


@boundary("Fragment", "append")
def b_append(eng, st, c, a, t):
    x, y = val(eng, st, a[0]), val(eng, st, a[1])
    if x.k not in ("sym", "agg") or y.k not in ("sym", "agg"):
        return None
    return [(st, appf(eng, st, x, y))]


def appf(eng, st, x, y):
    if st.eq(eng.d.seq_len(eng.d.finner(x)), ZERO):
        return y
    if st.eq(eng.d.seq_len(eng.d.finner(y)), ZERO):
        return x
    parts = []
    for z in (x, y):
        if z.k == "sym" and z.a[1][0] == "app":
            parts.extend(z.a[1][1])
        else:
            parts.append(z)
    return mk("sym", eng.p.find_adt("Fragment"), ("app", tuple(parts)))


def extra_axioms(d):
    """facts about the values returned by boundary operations"""
    def ax(a, st):
        n = a.a[0]
        if n == "P" and a.a[2] == "size":
            k = a.a[1].a[1]
            if k[0] == "inner" and k[1].a[1][0] == "app" and a.a[3] is d.blen(a.a[1]):
                tot = ZERO
                for z in k[1].a[1][1]:
                    tot = add(tot, d.fsize(z))
                return (), (sub(ia(a), tot),)
        if n == "len":
            k = a.a[1].a[1]
            if k[0] == "path":
                return (addc(ia(a), -1),), ()
        if n == "u":
            k = unkey(a.a[1])
            if isinstance(k, tuple) and k[0] == "fld" and k[3] == "index" and k[1].k == "sym" and \
                    d.p.adt_name(k[1].a[0]) == "ResolvedNode" and d.p.is_local_adt(k[1].a[0]):
                # an entry of a resolved path: the index is one of the node's children, or behind the last
                x = d.named(k[1], "node")
                x = x.a[0] if x.k == "ref" else x
                if x.k == "sym":
                    if not st.variants(x) & d.p.CONTENT:
                        return (), (ia(a),)
                    return (sub(d.seq_len(d.finner(d.node_frag(x))), ia(a)),), ()
        return None
    return ax


def rp_value(eng, ty, doc, pos):
    """the resolved position `pos` of `doc`"""
    p, d = eng.p, eng.d
    path = rn = None
    fs = []
    for f in p.fields(ty):
        t = p.types[f["ty"]]
        e = p.seq_elem(f["ty"])
        if e is not None:
            rn = base(e, ("path", doc, pos))
            fs.append(d.whole(rn))
        elif f["name"] == "pos":
            fs.append(pos)
        elif f["name"] == "depth":
            fs.append(None)
        elif f["name"] == "parent_offset":
            fs.append(ia(atom("u", mkkey(("poff", doc, pos)))))
        else:
            return None
    if rn is None:
        return None
    fs = [addc(d.blen(rn), -1) if x is None else x for x in fs]
    return mk("agg", ty, 0, tuple(fs)), rn


@boundary("Node", "resolve")
@boundary("ResolvedPos", "resolve")
def b_resolve(eng, st, c, a, t):
    doc = val(eng, st, a[0])
    pos = val(eng, st, a[1])
    if doc.k not in ("sym", "agg") or pos.k != "int":
        return None
    okv = eng.p.variant_ix(t, "Ok")
    r = rp_value(eng, eng.p.field_tys(t, okv)[0], doc, pos)
    if r is None:
        return None
    v, rn = r
    out = result(eng, st, t, v, "resolve", (doc, pos))
    st.facts = st.facts | {addc(eng.d.blen(rn), -1)}
    st._pc = {}
    return out


@boundary("Node", "slice")
def b_slice(eng, st, c, a, t):
    n = val(eng, st, a[0])
    fr = eng.d.node_frag(n)
    lo, hi = range_of(eng, st, a[1], eng.d.fsize(fr))
    inc = a[2]
    ty = eng.p.field_tys(t, eng.p.variant_ix(t, "Ok"))[0]
    key = (n, lo, hi, inc)
    return result(eng, st, t, mk("sym", ty, ("slice",) + key), "slice", key)


@boundary("Node", "replace")
def b_replace(eng, st, c, a, t):
    n = val(eng, st, a[0])
    fr = eng.d.node_frag(n)
    lo, hi = range_of(eng, st, a[1], eng.d.fsize(fr))
    sl = val(eng, st, a[2])
    key = (n, lo, hi, sl)
    return result(eng, st, t, mk("sym", eng.p.node_ty, ("replaced",) + key), "replace", key)


@boundary("Slice", "insert_at")
def b_insert_at(eng, st, c, a, t):
    sl = val(eng, st, a[0])
    key = (sl, a[1], a[2])
    ot = eng.p.field_tys(t, eng.p.variant_ix(t, "Ok"))[0]
    ty = eng.p.types[ot]["args"][0]
    out = []
    s2 = st.copy()
    s2.note(("fail", "insert") + key)
    out.append((s2, mk("agg", t, eng.p.variant_ix(t, "Ok"), (none(ot),))))
    out += result(eng, st, t, some(ot, mk("sym", ty, ("inserted",) + key)), "insert_at", key)
    return out


@boundary("replace_step", "content_between")
def b_between(eng, st, c, a, t):
    n = val(eng, st, a[0])
    key = (n, a[1], a[2])
    return result(eng, st, t, mk("bv", ("between",) + key), "between", key)


@boundary("Mark", "add_to_set")
@boundary("Mark", "remove_from_set")
def b_mset(eng, st, c, a, t):
    m = val(eng, st, a[0])
    s = val(eng, st, a[1])
    s = cow(eng, s) if s.k == "agg" else s
    if s.k == "sym" and last(eng.p.types[s.a[0]].get("path", "")) == "Cow":
        return None
    ty = eng.p.find_adt("MarkSet")
    ow = eng.p.variant_ix(t, "Owned")
    return [(st, mk("agg", t, ow, (mk("sym", ty, (c["name"], m, s)),)))]


@boundary("Fragment", "nodes_between")
def b_nodes_between(eng, st, c, a, t):
    if eng.__dict__.get("on_nodes_between"):
        return eng.on_nodes_between(eng, st, c, a, t)
    return None


# ---------------------------------------------------------------- recursion
def rec_hook(eng, st, c, args, dty):
    """a recursive call: an uninterpreted function of its arguments"""
    if dty is None:
        return None
    vals = []
    for a in args:
        if a.k == "mref":
            return None
        vals.append(strip(eng, st, a))
    key = (c.get("rpath") or c["path"],) + tuple(vals)
    t = eng.p.types[dty]
    if t["k"] == "adt" and t["path"].endswith("result::Result"):
        okty = eng.p.field_tys(dty, eng.p.variant_ix(dty, "Ok"))[0]
        ot = eng.p.types[okty]
        if ot["k"] == "adt" and ot["path"].endswith("option::Option"):
            s2 = st.copy()
            s2.note(("none", "rec") + key)
            return [(s2, mk("agg", dty, eng.p.variant_ix(dty, "Ok"), (none(okty),)))] + result(
                eng, st, dty, some(okty, eng.d.mk_sym(ot["args"][0], ("rec",) + key)), "rec", key)
        return result(eng, st, dty, eng.d.mk_sym(okty, ("rec",) + key), "rec", key)
    return [(st, eng.d.mk_sym(dty, ("rec",) + key))]


# ---------------------------------------------------------------- loops
def loop_index(rec, b=None):
    """[(base, first index, index at the head, phi)] of the sequences the loop walks one by one"""
    out = []
    E, Be, phis = rec["E"], rec["Be"], rec["phis"]
    backs = rec["backs"]
    if not backs:
        return out
    for ph in phis.values():
        if ph.kind != "int":
            continue
        a = ph.sym
        if all(B and B.get(a) is addc(ia(a), 1) for _, B in backs):
            out.append((a, Be[a], E.get(a, ia(a))))
    return out


def elems_in(t, seen=None, out=None):
    """every elem(base, index) occurring in a term"""
    if seen is None:
        seen, out = set(), []
    if isinstance(t, tuple):
        for x in t:
            elems_in(x, seen, out)
        return out
    if not isinstance(t, T) or t in seen:
        return out
    seen.add(t)
    if t.k == "sym" and isinstance(t.a[1], tuple) and t.a[1]:
        k = t.a[1]
        if k[0] == "elem":
            out.append(t)
        elif k[0] == "deref" and isinstance(k[1], tuple) and k[1] and k[1][0] == "elem":
            out.append(mk("sym", t.a[0], k[1]))  # an element of a list of references
    for x in t.a:
        elems_in(x, seen, out)
    return out


def holding(s, b, v):
    """the states of s in which b has the value v"""
    return [x for x in s.copy().assume(b if v else b_not(b)) if x.feasible()]


def flags(rec, st):
    """the loop's boolean variables whose final value the state knows"""
    return [(ph.sym, st.bools[ph.sym]) for ph in rec["phis"].values() if ph.kind == "bool" and ph.sym in st.bools]


def rounds(rec, st):
    """the rounds that can have come before this outcome: variables that keep a value once they have it had the
    other one all along when they do not have it at the end"""
    out = list(rec["backs"])
    for q, v in flags(rec, st):
        if any(B is None or q not in B for _, B in out):
            continue
        if any(holding(x, B[q], v) for s, B in out for x in holding(s, q, not v)):
            continue
        out = [(y, B) for s, B in out for x in holding(s, q, v) for y in holding(x, B[q], v)]
    return out


def caused(run, st, pred):
    """has a variable of a loop its final value only because of a round in which pred(state) held?"""
    for rec in run.eng.loop_log:
        for q, v in flags(rec, st):
            if rec["entry"].decide(rec["Be"][q]) is not (not v) or any(B is None or q not in B for _, B in rec["backs"]):
                continue
            ss = [y for s, B in rec["backs"] for x in holding(s, q, not v) for y in holding(x, B[q], v)]
            if ss and all(pred(y) for y in ss):
                return True
    return False


def forall(run, st, b, lo, hi, pred):
    """did every way to this outcome walk the elements lo..hi of base b, with pred(state, element)
    holding whenever the walk went on?  True / False / None (cannot tell)"""
    if st.entails(sub(lo, hi)):
        return True
    maybe = False
    for rec in run.eng.loop_log:
        for a, i0, cur in loop_index(rec):
            touched = False
            good = True
            off = None
            for bs, B in rounds(rec, st):
                es = [e for e in elems_in(tuple(bs.bools) + tuple(bs.var)) if e.a[1][1] is b]
                mine = []
                for e in es:
                    o = sub(e.a[1][2], cur)
                    if is_const(o):
                        touched = True
                        mine.append(e)
                        if off is None:
                            off = o
                if off is None:
                    off = ZERO
                e = run.d.elem(b, add(cur, off))
                if not pred(bs, e):
                    good = False
            if off is None:
                continue
            if not st.entails(sub(lo, add(i0, off))):
                if touched:
                    maybe = maybe or not is_const(sub(add(i0, off), lo))
                continue
            if not st.entails(sub(add(cur, off), hi)):
                if touched:
                    maybe = maybe or not is_const(sub(add(cur, off), hi))
                continue
            if good:
                return True
    if not maybe:
        return False
    return True if skipping(run, st, b, lo, hi, pred) else None


def early(run, st, b, hi):
    """was this outcome reached from the only walk over b before the end of it?  (None: cannot tell)"""
    found = []
    for rec in run.eng.loop_log:
        hit = any(e.a[1][1] is b for bs, _ in rec["backs"] for e in elems_in(tuple(bs.bools) + tuple(bs.var)))
        if hit:
            found.append(rec)
    if len(set(x["key"] for x in found)) != 1 or inexact(st, None):
        return None
    for rec in found:
        ix = loop_index(rec)
        if len(ix) != 1:
            return None
        a, _, cur = ix[0]
        if not any(a in dict(f.a[1]) for f in st.facts | st.eqs):
            continue
        return any(s.feasible() for s in st.copy().assume(ge(addc(sub(hi, cur), -1))))
    return None


def skipping(run, st, b, lo, hi, pred):
    """... by a loop whose rounds each first skip some elements in an inner loop"""
    for out in run.eng.loop_log:
        for a, ph in out["phis"].items():
            if ph.kind != "int" or not out["backs"]:
                continue
            for inn in run.eng.loop_log:
                for j, j0, cur in loop_index(inn):
                    if j0 is not ia(a) or not all(B and B.get(a) is addc(ia(j), 1) for _, B in out["backs"]):
                        continue
                    if not (st.entails(sub(lo, out["Be"][a])) and st.entails(sub(cur, hi))):
                        continue
                    e = run.d.elem(b, ia(j))
                    if all(pred(s, e) for s, _ in inn["backs"] + out["backs"]):
                        return True
    return False
