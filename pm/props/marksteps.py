"""C12 mark steps.

The apply functions are interpreted for an arbitrary step and document: they replace the range of the step by the
same slice with its content mapped.  What the map does to one node is decided by interpreting the closure it
is given for an arbitrary node and parent; that the map visits every child, descends into every child and
touches only inline nodes is decided on what its loop does with an arbitrary child."""
from ..parts import *
from ..dom import unkey
from .replace import private
from .marks import add_spec, rem_spec, content

INLINE = ("Text", "HardBreak", "Image")


def maps(ctx):
    its = [i for i in ctx.p.items if i["name"] in ("map_fragment", "map_fragment_parent") and i["insts"] and
           i.get("local", True) and "mark_step" in i["path"]]
    if not its:
        raise MissingPrivate("map_fragment")
    return its


def step_fields(ctx, eng, d, st):
    t = d.p.types[st.a[0]]
    sp = d.named(st, "span")
    return d.named(sp, "from"), d.named(sp, "to"), d.named(st, "mark")


def apply_steps(ctx):
    for nm, op in (("AddMarkStep", "add_to_set"), ("RemoveMarkStep", "remove_from_set")):
        it = ctx.item("apply", owner=nm, trait="StepKind")
        r = ctx.run(it, with_=summaries("map_fragment", "map_fragment_parent", "shared_depth"))
        if r:
            one_step(ctx, r, nm, op)


def one_step(ctx, r, nm, op):
    eng, d, p = r.eng, r.d, ctx.p
    self_, doc = r.sym[:2]
    lo, hi, mark = step_fields(ctx, eng, d, self_)
    closures = []

    def spec(s, v):
        k, x = res(eng, v)
        if k == "Err":
            return None if anyfail(s) else "fails although the range can be taken out and put back"
        if x is doc:
            return "leaves the document as it is"
        kk = x.a[1] if x.k == "sym" and isinstance(x.a[1], tuple) else (None,)
        if kk[0] != "replaced":
            return "gives %s" % show(x)[:200]
        _, dd, a, b, sl = kk[:5]
        if dd is not doc or not (s.eq(a, lo) and s.eq(b, hi)):
            return "replaces %s..%s" % (show(a)[:60], show(b)[:60])
        fr = d.named(sl, "content")
        key = fr.a[1] if fr.k == "sym" and isinstance(fr.a[1], tuple) else (None,)
        if key[0] not in ("mapf", "mapfp"):
            if fr.k == "sym" and key[0] in ("fld",):
                return "puts back the content it took out"
            raise Undecided("how the content is mapped")
        src = slice_of(key[1])
        if src is None:
            return "maps %s" % show(key[1])[:200]
        k0 = src.a[1]
        if not (k0[1] is doc and s.eq(k0[2], lo) and s.eq(k0[3], hi)):
            return "maps the slice %s" % show(src)[:200]
        if len(k0) > 4 and k0[4] is not None and s.decide(k0[4]) is not False:
            return "takes the slice with its parents, but puts it back without"
        for f in ("open_start", "open_end"):
            if not s.eq(d.named(sl, f), d.named(src, f)):
                return "changes the open depth of the slice"
        closures.append((s, key))
        if key[0] == "mapfp":
            msg = parent_of(s, key[3])
            if msg:
                return msg
        return None

    def slice_of(f):
        if f.k == "sym" and isinstance(f.a[1], tuple) and f.a[1][0] == "fld":
            b = f.a[1][1]
            if b.k == "sym" and isinstance(b.a[1], tuple) and b.a[1][0] == "slice" and d.named(b, "content") is f:
                return b
        return None

    def parent_of(s, n):
        """the parent of the outermost nodes: the innermost ancestor of `from` that also holds `to`"""
        m = strip(eng, s, n)
        for _ in range(8):
            if isinstance(m, T):
                if m.k != "sym" or not isinstance(m.a[1], tuple):
                    break
                e = eng.d.as_elem(m)
                if e is not None:
                    b, i = e
                    bk = b.a[1]
                    if not (isinstance(bk, tuple) and bk[0] == "path" and bk[1] is doc and s.eq(bk[2], lo)):
                        return "takes the parent from another path"
                    for a, _ in i.a[1]:
                        sh = unkey(a.a[1]) if len(a.a) > 1 else None
                        if isinstance(sh, tuple) and sh[0] == "shared" and s.eq(i, ia(a)) and \
                                s.eq(RP(eng, sh[1]).pos, lo) and s.eq(sh[2], hi):
                            return None
                    return "takes the node at level %s as parent" % show(i)[:160]
                m = m.a[1]
            if m[0] not in ("deref", "fld"):
                break
            m = m[1]
        raise Undecided("parent of the outermost nodes")
    ctx.judge(r, nm, spec)
    ctx.cover(r, nm, [("applies", lambda s, v: res(eng, v)[0] == "Ok")])
    for s, key in closures[:2]:
        closure(ctx, r, nm, op, s, key, mark)


def closure(ctx, r, nm, op, s, key, mark):
    """what the step does to one node"""
    eng, d, p = r.eng, r.d, ctx.p
    n = mk("sym", p.node_ty, ("arg", "node"))
    par = mk("sym", p.node_ty, ("arg", "parent"))
    base_v = strip(eng, s, key[2])
    where = loc(r.it)
    args = closure_args(p, base_v, n, par)
    if args is None:
        ctx.unk(r.it["path"], "arguments of the function mapped over the nodes")
        return
    eng.active, eng.stack = [], []
    eng.deadline = time.time() + 60
    try:
        outs = eng.call_value(s.copy(), base_v, args, p.node_ty)
    except Undecided as e:
        ctx.unk(r.it["path"], "function mapped over the nodes: %s" % e)
        return
    seen = set()
    for q, v in outs:
        if not q.feasible():
            continue
        allow = allowed(d, q, par, mark)
        if nm == "RemoveMarkStep":
            allow = True
        vs = q.variants(n)
        if v is n:
            if allow is False or not vs & p.TEXT:
                ctx.ok()
                continue
            if mentions(set(q.bools) - set(s.bools), d.named(d.node_textnode(n), "marks")):
                ctx.unk(r.it["path"], "texts left as they are depending on their marks")
                continue
            ctx.bad(nm + ":node", where, "%s: leaves a text as it is%s" % (
                short(r.it["path"]), "" if allow else " without asking the parent's type"))
            continue
        if not vs <= p.TEXT:
            ctx.bad(nm + ":node", where, "%s: turns a node into %s" % (short(r.it["path"]), show(v)[:160]))
            continue
        if allow is not True:
            ctx.bad(nm + ":allowed", where, "%s: changes the marks of a text whose parent does not allow the mark"
                    % short(r.it["path"]))
            continue
        tn = d.node_textnode(n)
        try:
            t2 = d.node_textnode(v)
            m, t = d.named(t2, "marks"), d.named(t2, "text")
        except Exception:
            ctx.unk(r.it["path"], "text computed")
            continue
        k = m.a[1] if m.k == "sym" and isinstance(m.a[1], tuple) else (None,)
        if not q.variants(v) <= p.TEXT or t is not d.named(tn, "text"):
            ctx.bad(nm + ":node", where, "%s: changes the text to %s" % (short(r.it["path"]), show(t)[:160]))
        elif m.k == "agg" or m is d.named(tn, "marks"):
            old = d.named(tn, "marks")
            try:
                msg = (add_spec if op == "add_to_set" else rem_spec)(eng, q, content(d, old), content(d, m), mark)
            except Undecided as e:
                msg = "?"
            if msg == "?":
                ctx.unk(r.it["path"], "marks given to a text")
            elif msg:
                ctx.bad(nm + ":marks", where, "%s: %s" % (short(r.it["path"]), msg))
            else:
                seen.add("changes")
                ctx.ok()
        elif not (k[0] in ("add_to_set", "remove_from_set") and k[0] == op and k[1] is mark and k[2] is d.named(tn, "marks")):
            ctx.bad(nm + ":marks", where, "%s: gives the text the marks %s" % (short(r.it["path"]), show(m)[:200]))
        else:
            seen.add("changes")
            ctx.ok()
    ctx.covered("changes" in seen, r.it["path"], nm + ":changes", where, "%s never changes the marks of a text" % short(r.it["path"]))


def mentions(ts, x):
    seen, todo = set(), list(ts)
    while todo:
        t = todo.pop()
        if isinstance(t, tuple):
            todo.extend(t)
        elif isinstance(t, T) and t not in seen:
            if t is x:
                return True
            seen.add(t)
            todo.extend(t.a)
    return False


def allowed(d, q, par, mark):
    """was the parent's type asked whether it allows the mark's type?"""
    for b, on in q.bools.items():
        if b.k == "bv" and isinstance(b.a[0], tuple) and b.a[0][0] == "allows":
            x, y = b.a[0][1:3]
            if x is d.ntype(par) and y.k == "sym" and y.a[1] == ("mtype", mark):
                return on
    return None


def closure_args(p, v, n, par):
    t = p.types[v.a[0]] if v.k in ("agg", "sym") and v.a[0] is not None else None
    if t is None or t["k"] != "closure":
        return None
    f = p.fns.get(t.get("body"))
    if f is None:
        return None
    return typed_args(p, f["locals"][2:f["argc"] + 1], n, par)


def typed_args(p, tys, n, par):
    out = []
    for ty in tys:
        t = p.types[ty]
        if ty == p.node_ty:
            out.append(n)
        elif t["k"] == "ref" and t["elem"] == p.node_ty:
            out.append(ref(par))
        elif t["k"] in ("int", "uint"):
            out.append(ia(atom("u", ("arg", "index"))))
        else:
            return None
    return out


def anyfail(s):
    return [n for n in s.notes if isinstance(n, tuple) and n[0] in ("fail", "none")]


# ---------------------------------------------------------------- the map over the content
def mapping(ctx):
    for it in maps(ctx):
        r = ctx.run(it, with_=summaries("add_node"))
        if r:
            one_map(ctx, r)


def one_map(ctx, r):
    eng, d, p = r.eng, r.d, ctx.p
    nm = r.it["name"]
    where = loc(r.it)
    frs = [a for a in r.sym if a.k == "sym" and p.is_local_adt(a.a[0], "Fragment")]
    fs = [a for a in r.sym if a.k == "sym" and a not in frs and a.a[0] != p.node_ty]
    ps = [a for a in r.sym if a.k == "sym" and a.a[0] == p.node_ty]
    if len(frs) != 1 or len(fs) != 1 or len(ps) > 1:
        ctx.unk(r.it["path"], "arguments")
        return
    fr, f, par = frs[0], fs[0], (ps or [None])[0]
    kids_ = d.finner(fr).a[0][0].a[0]
    inline = frozenset(i for i, v in enumerate(p.types[p.node_ty]["variants"]) if v["name"] in INLINE)
    def step(s, got, q, rec):
        """(message or None, index) for one round: the collected list grows by the mapped child"""
        segs = got.a[0]
        if not (len(segs) == 2 and segs[0].k == "sub" and segs[0].a[0] is q and segs[0].a[1] is ZERO and
                s.eq(segs[0].a[2], d.blen(q)) and segs[1].k == "one"):
            return "a round leaves %s" % show(got)[:200], None
        x = segs[1].a[0]
        if x.k == "sym" and isinstance(x.a[1], tuple) and x.a[1][0] == "joined":
            x = x.a[1][1]
        es = {e for e in elems_in((x,)) if e.a[1][1] is kids_}
        if len(es) != 1:
            return "a round adds %s" % show(x)[:200], None
        e = next(iter(es))
        at = e.a[1][2]
        vs = s.variants(e)
        if vs <= inline:
            k = x.a[1] if x.k == "sym" and isinstance(x.a[1], tuple) else (None,)
            if k[0] != "call" or strip(eng, s, k[1]) is not f:
                return "an inline child becomes %s" % show(x)[:200], at
            for a in k[2:]:
                if a.k == "ref":
                    a = a.a[0]
                if a.k == "int":
                    if not s.eq(a, at):
                        return "the function gets the index %s" % show(a)[:80], at
                elif a is e or a is par:
                    continue
                elif par is None or a.k == "sym":
                    return "the function gets %s" % show(a)[:200], at
            own = [a for a in k[2:] if a is e]
            if len(own) != 1:
                return "the function does not get the child itself", at
            return None, at
        if not vs & inline and vs <= p.CONTENT:
            k = x.a[1] if x.k == "sym" and isinstance(x.a[1], tuple) else (None,)
            if k[0] != "copyf" or k[1] is not e:
                return "a child with content becomes %s" % show(x)[:200], at
            y = k[2].a[1] if k[2].k == "sym" and isinstance(k[2].a[1], tuple) else (None,)
            if y[0] != "rec":
                return "a child keeps the content %s" % show(k[2])[:160], at
            for a0, a in zip(r.sym, y[2:]):
                a = strip(eng, s, a)
                want = d.node_frag(e) if a0 is fr else e if a0 is par else a0
                if a is not want and not key_eq(eng, s, a, want):
                    return "descends into a child with %s" % show(a)[:160], at
            return None, at
        if not vs & inline and not vs & p.CONTENT:
            return (None if x is e else "a block without content becomes %s" % show(x)[:160]), at
        # the round does not tell what kind of child it is: it must be right for each
        at = None
        for part in (vs & inline, (vs - inline) & p.CONTENT, vs - inline - p.CONTENT):
            s2 = s.copy()
            if part and s2.refine(e, part):
                if s2.variants(e) == vs:
                    raise Undecided("kind of the child")
                msg, at = step(s2, got, q, rec)
                if msg:
                    return msg, at
        return None, at
    recs = []
    for rec in eng.loop_log:
        for q, ph in rec["phis"].items():
            if ph.kind == "seq" and any(B and B.get(q) is not None and nodes(p, B[q]) for _, B in rec["backs"]):
                recs.append((rec, q))
    if not recs:
        ctx.unk(r.it["path"], "no loop collects the mapped children")
        return
    for rec, q in recs:
        idx = [(a, i0, cur) for a, i0, cur in loop_index(rec)]
        b0 = rec["Be"][q]
        ctx.check(b0.k == "seq" and rec["entry"].eq(d.seq_len(b0), ZERO), nm + ":start", where,
                  "%s starts with %s" % (nm, show(b0)[:120]))
        used = set()
        for s, B in rec["backs"]:
            if B is None:
                continue
            try:
                m, at = step(s, B[q], q, rec)
            except Undecided as ex:
                ctx.unk(r.it["path"], "%s" % ex)
                continue
            if m is None:
                ctx.ok()
                used.add(at)
            else:
                ctx.bad(nm + ":child", where, "%s: %s" % (nm, m))
        # every child is visited: the index starts at the first and the loop ends behind the last
        for a, i0, cur in idx:
            if cur in used:
                ctx.check(rec["entry"].eq(d.subst(cur, {a: i0}), ZERO), nm + ":first", where, "%s starts at the child %s" % (nm, show(i0)[:80]))
                for s, v in r.outs:
                    if v.k != "agg" or not any(g.k == "sub" and g.a[0] is q for g in d.finner(v).a[0]):
                        continue
                    ctx.check(s.entails(sub(cur, d.blen(kids_))), nm + ":last", where, "%s stops before the last child" % nm)
                break
        else:
            ctx.check(not used, nm + ":walk", where, "%s does not go from child to child" % nm)

    # the result is what was collected
    for s, v in r.outs:
        if v is fr and s.eq(d.seq_len(d.finner(fr)), ZERO):
            ctx.ok()
            continue
        segs = d.finner(v).a[0] if v.k == "agg" else ()
        good = [g for g in segs if g.k == "sub" and any(g.a[0] is q for _, q in recs)]
        if len(segs) == 1 and good and good[0].a[1] is ZERO and s.eq(good[0].a[2], d.blen(good[0].a[0])):
            ctx.ok()
        elif not segs and s.eq(d.seq_len(d.finner(fr)), ZERO):
            ctx.ok()
        else:
            ctx.bad(nm + ":result", where, "%s gives %s, not the mapped children" % (nm, show(v)[:160]))


def nodes(p, v):
    return v.k == "seq" and any((g.k == "one" and g.a[0].k in ("sym", "agg") and g.a[0].a[0] == p.node_ty) for g in v.a[0])


def check_c12(ctx):
    ctx.par([("apply", apply_steps), ("map", mapping)])
