"""C26: safe Rust only."""
import factsdb

CR = ("ssbh_lib", "ssbh_data", "ssbh_write")
MARKERS = ("TrivialClone", "StructuralPartialEq", "StructuralEq")      # emitted by the compiler's own derives


def run(ctx, rep):
    rep.explanation = ("The typed syntax trees of every function of the libraries are searched for unsafe blocks, functions, traits, implementations and foreign items; "
                       "code the compiler itself generates (formatting, derives) is excluded.")
    rep.rules = ["no unsafe block, unsafe function, unsafe implementation or foreign item in the libraries", "no mutable static and no static with interior mutability"]
    F = factsdb.Facts(ctx.x["facts"])
    n = 0
    for c in CR:
        d = F.crate(c)
        n += len(d["fns"])
        for u in d["unsafe_blocks"]:
            if u["src"] != "CompilerGenerated":
                rep.violation(f"unsafe block in {u['fn']}", factsdb.rel(u["span"]), f"{u['fn']} contains unsafe code")
        for u in d["unsafe_items"]:
            if not any(m in u["path"] for m in MARKERS):
                rep.violation(f"unsafe {u['kind']} {u['path']}", factsdb.rel(u["span"]), f"{u['path']} is an unsafe {u['kind']}")
        for s in d["statics"]:
            if s["mut"] or not s["freeze"]:
                rep.violation(f"static {s['path']}", factsdb.rel(s["span"]), f"{s['path']} is shared mutable state")
        rep.count("unsafe_blocks_of_the_compiler", len(d["unsafe_blocks"]))
        rep.count("implementations", len(d["impls"]))
    rep.floor("functions", n, 3500, "functions of the libraries")
    rep.assume |= {"dependencies and the standard library are sound"}
