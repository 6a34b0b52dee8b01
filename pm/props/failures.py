"""C06: a failure inside an operation is never swallowed.

Every function that returns a Result is interpreted for arbitrary arguments with every fallible crate
function it calls replaced by a two-way choice (it succeeds with an arbitrary value, or it fails); paths
on which one of them failed must end in an error (or, for insertions, in "does not fit")."""
from ..parts import *
from .exporter import cmark_hook


def is_result(p, t):
    x = p.types[t]
    return x["k"] == "adt" and x["path"].endswith("result::Result")


def fallible(ctx):
    """(item, instance) of every function with a body that returns a Result; formatting is not an operation"""
    p = ctx.p
    out = []
    for it in p.items:
        if not it["insts"] or it["dk"] == "Closure" or it["expn"]:
            continue
        if "fmt::" in it["path"].rsplit("::", 1)[0].split(" as ")[-1] and it["name"] == "fmt":
            continue
        if not is_result(p, p.fns[it["insts"][0][1]]["locals"][0]):
            continue
        ety = p.field_tys(p.fns[it["insts"][0][1]]["locals"][0], p.variant_ix(p.fns[it["insts"][0][1]]["locals"][0], "Err"))[0]
        if "fmt::Error" in p.types[ety].get("path", ""):
            continue
        out.append(it)
    return out


def fails(s):
    return [n for n in s.notes if isinstance(n, tuple) and n[0] in ("fail", "none") and n[1] != "fit"]


def one(it):
    def go(ctx):
        # add_range and add_node cannot fail: their effect on the list built is irrelevant here
        r = ctx.run(it, hooks=[fallible_hook, cmark_hook], with_=summaries("add_range", "add_node"))
        if not r:
            return
        eng = r.eng
        where = loc(it)
        tags = {}
        for s, v in r.outs:
            for n in s.notes:
                if isinstance(n, tuple) and n[0] in ("fail", "none", "done"):
                    tags.setdefault(tag_of(n), set()).add(n[0])
        for s, v in r.outs:
            for b, t in s.bools.items():
                if b.k == "bv" and b.a[0] and b.a[0][0] in ("valid", "compat") and t is False:
                    tags.setdefault(str(b.a[0][0]), set()).add("fail")
        ctx.count("failure points", len(tags))

        def spec(s, v):
            nm, x = res(eng, v)
            bad = fails(s)
            refused = refusals(eng, s, it)
            if nm == "Err":
                return None
            if nm is None:
                raise Undecided("result %s" % show(v)[:80])
            if not bad and not refused:
                return None
            if x.k == "agg" and vname(eng, x) == "None" and eng.p.adt_name(x.a[0]) == "Option":
                return None
            what = tag_of(bad[0]) if bad else refused[0]
            return "returns a result although %s failed" % what

        ctx.judge(r, "swallowed:" + short(it["path"]), spec)
        for pn in r.panics:
            st = pn[3]
            bad = [n for n in fails(st) if not constant(n)]
            if bad and st.feasible() and not inexact(st, None):
                ctx.bad("panics:" + short(it["path"]), where,
                        "%s: panics instead of reporting that %s failed" % (short(it["path"]), tag_of(bad[0])))
            elif bad:
                ctx.unk(it["path"], "panic after a failure")
        for t, kinds in sorted(tags.items()):
            ctx.ok(1, "%s: failure of %s reported" % (short(it["path"]), t)) if kinds & {"fail", "none"} else None
    return go


def tag_of(n):
    t = n[1]
    if t == "rec":
        return last(norm(n[2]))
    return str(t)


def constant(n):
    return any(x.k == "int" and x.a[1] == () for x in n[2:] if isinstance(x, T))


def refusals(eng, s, it):
    """checks that are not Results: a content check or a join check that came out negative in an operation that
    rebuilds content.  The answer of a check is what the predicates are asked for, so only functions
    returning nodes, content or slices are bound by it."""
    t = eng.p.fns[it["insts"][0][1]]["locals"][0]
    ok = eng.p.field_tys(t, eng.p.variant_ix(t, "Ok"))[0]
    ty = eng.p.types[ok]
    built = ok == eng.p.node_ty or eng.p.is_local_adt(ok, "Fragment") or eng.p.is_local_adt(ok, "Slice") or \
        (ty["k"] == "tuple" and not ty.get("elems"))
    if not built:
        return []
    out = []
    for b, v in s.bools.items():
        if b.k == "bv" and v is False and b.a[0]:
            if b.a[0][0] == "valid":
                out.append("the content check")
            elif b.a[0][0] == "compat":
                out.append("the join check")
    return out


def check(ctx):
    its = fallible(ctx)
    ctx.check(len(its) >= 10, "operations", "src/lib.rs", "only %d operations that can fail were found" % len(its))
    for name, kw in (("slice", {"trait": "Node"}), ("replace", {"trait": "Node"}), ("resolve", {"trait": "Node"}),
                     ("apply", {"owner": "Step"}), ("insert_at", {"owner": "Slice"})):
        ctx.item(name, **kw)
    ctx.par([(short(i["path"]), one(i)) for i in its])
    ctx.par([("complete", complete)])


def complete(ctx):
    """an applied step is the step's whole effect"""
    it = ctx.item("apply", owner="Step")
    r = ctx.run(it, hooks=[fallible_hook])
    if r:
        eng, d, p = r.eng, r.d, ctx.p
        step, doc = r.sym[:2]

        def spec(s, v):
            nm, x = res(eng, v)
            vs = s.variants(step)
            if len(vs) != 1:
                raise Undecided("step kind not known")
            inner = d.proj(step, 0, list(vs)[0])
            calls = [n for n in s.notes if isinstance(n, tuple) and n[0] in ("done", "fail") and n[1] == "apply"]
            if len(calls) != 1:
                return "a step is not applied through its own rule"
            k = calls[0]
            if not (len(k) == 4 and k[2] is inner and k[3] is doc):
                return "a step is applied to other arguments"
            if nm == "Ok" and not (x.k == "sym" and x.a[1][:2] == ("ok", "apply")):
                return "the result of an applied step is not the document its rule gave"
            return None
        ctx.judge(r, "dispatch", spec)
        for i in sorted(r.st0.variants(step)):
            ctx.cover(r, "dispatch", [("applies step kind %d" % i, lambda s, v, i=i: s.variants(step) == frozenset([i]) and
                                       res(eng, v)[0] == "Ok")])
    it = ctx.item("apply", owner="ReplaceStep", trait="StepKind")
    r = ctx.run(it)
    if r:
        eng, d = r.eng, r.d
        step, doc = r.sym[:2]
        sp = d.named(step, "span")

        def spec2(s, v):
            nm, x = res(eng, v)
            if nm != "Ok":
                return None
            k = x.a[1] if x.k == "sym" else None
            if isinstance(k, tuple) and k[0] == "replaced" and k[1] is doc and s.eq(k[2], d.named(sp, "from")) and \
                    s.eq(k[3], d.named(sp, "to")) and key_eq(eng, s, k[4], d.named(step, "slice")):
                return None
            return "gives %s, not the document with the range replaced by the slice" % show(x)[:200]
        ctx.judge(r, "replace step", spec2)
        ctx.cover(r, "replace step", [("applies", lambda s, v: res(eng, v)[0] == "Ok")])
