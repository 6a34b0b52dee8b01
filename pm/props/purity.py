"""C04: no operation changes what it is given through a shared reference or keeps state of its own.

With no unsafe code, no cell inside any type a caller can hold, and no mutable or cell-carrying
static, the type system already excludes both; this check establishes those premises for the
current tree, and that no function reads the outside world (effects, by callee)."""
import re
from ..spec import *

# state outside the arguments: by callee path
EFFECTS = (
    ("std::env::", "reads the environment"), ("std::fs::", "uses the file system"),
    ("std::net::", "uses the network"), ("std::process::", "uses processes"), ("std::time::", "reads the clock"),
    ("std::io::", "performs input or output"), ("std::thread::", "uses threads or thread-local state"),
    ("std::sys::", "uses the operating system"), ("std::os::", "uses the operating system"),
    ("core::ptr::write", "writes through a raw pointer"), ("core::intrinsics::transmute", "transmutes"),
    ("core::mem::transmute", "transmutes"), ("std::random::", "uses randomness"),
    ("core::hash::random", "uses randomness"), ("rand::", "uses randomness"),
)
# (a fresh cell or lock that lives inside one call is not hidden state: cells are judged by type)
HASHED = re.compile(r"std::collections::hash::|hashbrown::")
ITERS = ("iter", "iter_mut", "into_iter", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "retain")
# types whose values are documents or edits
SHARED = ("MarkdownNode", "Fragment", "Slice", "MarkSet", "MarkdownMark", "Step", "ReplaceStep", "ReplaceAroundStep",
          "AddMarkStep", "RemoveMarkStep", "TextNode", "Text")


def each(x, fn):
    if isinstance(x, dict):
        fn(x)
        for y in x.values():
            each(y, fn)
    elif isinstance(x, list):
        for y in x:
            each(y, fn)


def check(ctx):
    p = ctx.p
    raw = p.raw
    # 1. types
    for a in raw["adts"]:
        if "::_::" in a["path"] or "_DERIVE_" in a["path"]:
            continue
        held = a["exported"] or any(last(a["path"]) in re.findall(r"\w+", f[2]) for b in raw["adts"] for f in b["fields"]
                                    if b["exported"])
        if a["nofreeze"] and held:
            ctx.bad("cell:" + a["path"], short(a["path"]),
                    "%s can change behind a shared reference through its field %s" % (
                        short(a["path"]), ", ".join(a["nofreeze"])))
        else:
            ctx.ok(1)
        ctx.count("types", 1)
    for t in p.types:
        if t.get("local") and "sync" in t and t.get("path"):
            nm = last(t["path"])
            if nm in SHARED:
                ctx.count("shared types", 1)
                ctx.check(t["sync"], "sync:" + nm, short(t["path"]),
                          "%s cannot be shared between threads" % nm, "%s: Sync" % t["str"])
                ctx.check(t["send"], "send:" + nm, short(t["path"]),
                          "%s cannot be handed to another thread" % nm)
                ctx.check(t["freeze"], "freeze:" + nm, short(t["path"]),
                          "%s can change behind a shared reference" % nm)
    for nm in ("MarkdownNode", "Fragment", "Slice", "Step"):
        if not any(t.get("local") and "sync" in t and last(t["path"]) == nm for t in p.types):
            raise Missing(nm)
    # 2. statics
    for s in raw["statics"]:
        ctx.count("statics", 1)
        if s["mut"] or not s["freeze"] or s["thread_local"]:
            ctx.bad("static:" + s["path"], short(s["path"]), "%s is state outside the arguments of an operation" % short(
                s["path"]))
        else:
            ctx.ok()
    # 3. unsafe code
    for u in raw["unsafe"]:
        ctx.bad("unsafe:%s:%s" % (u["span"][0], u["what"]), str(u["span"][0]),
                "%s: shared data may be written behind the type system" % u["what"])
    if not raw["unsafe"]:
        ctx.ok(1, "no unsafe block, function or impl in the crate")
    # 4. effects
    for f in p.fns.values():
        if not f["local"]:
            continue
        ctx.count("functions", 1)
        found = []

        def callee(x):
            if "path" in x and ("f" in x or "rpath" in x or "kind" in x) and isinstance(x["path"], str):
                for q in (x["path"], x.get("rpath") or ""):
                    q2 = q.lstrip("<&")
                    for pre, what in EFFECTS:
                        if q2.startswith(pre):
                            found.append((what, q))
                if HASHED.search(x.get("rpath") or x["path"]) and last(norm(x["path"])) in ITERS:
                    found.append(("depends on the order of a hash table", x["path"]))
            if x.get("r") == "cast" and str(x.get("kind")).startswith("PointerExpose"):
                found.append(("depends on the address of a value", "cast"))
        each(f["blocks"], callee)
        own = f["owner"]
        if found:
            for what, q in found:
                ctx.bad("effect:%s:%s" % (short(own), what), short(own), "%s %s (%s)" % (short(own), what, q))
        else:
            ctx.ok()
        if own not in ctx.analysed:
            ctx.analysed.append(own)
