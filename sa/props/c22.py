"""C22: results depend on nothing but the arguments."""
import re
import factsdb
from hashorder import HashOrder

CR = ("ssbh_lib", "ssbh_data", "ssbh_write")
SOURCE = re.compile(r"(^|::)(time::(SystemTime|Instant|UNIX_EPOCH)|SystemTime::now|Instant::now|thread::(current|spawn|scope|Builder|sleep|park|available_parallelism)|env::\w+|process::id|"
                    r"RandomState::(new|hash_one|default)|AHasher::default|RandomState::generate_with|getrandom|rand::\w+|panic::Location::caller|std::backtrace::)"
                    r"|BuildHasher>?::(hash_one|build_hasher)$|RandomState as .*Default>::default$|RandomState as .*BuildHasher>"
                    r"|thread::local::LocalKey|sync::(mpsc|OnceLock|LazyLock|Mutex|RwLock|Condvar|Once|Barrier)|sync::atomic|type_name$|fmt::Pointer|TypeId::of|ptr::(addr|hash)|<\*(const|mut) T>::(addr|expose)")


def run(ctx, rep):
    rep.explanation = ("Effect analysis: every call in every function of the libraries (closures and generated code included, reachable or not) is compared with the sources of "
                       "nondeterminism; statics and thread locals of the crates are listed; every iterator over a hash table is followed to what consumes it.")
    rep.rules = ["no call reads the clock, environment, threads, random numbers, addresses or shared mutable state",
                 "the crates define no static with interior mutability, mutable static or thread local",
                 "an iterator over a hash table is consumed only where its order does not matter (counting, extrema, tests, another table, sorted)",
                 "no pointer is turned into a number"]
    F = factsdb.Facts(ctx.x["facts"])
    n = 0
    for c in CR:
        d = F.crate(c)
        for s in d["statics"]:
            if s.get("mut") or s.get("thread_local") or not s.get("freeze", True):
                rep.violation(f"static {s['path']}", factsdb.rel(s["span"]), f"{s['path']} is state shared between calls")
            rep.count("statics", 1)
        for f in d["fns"]:
            n += 1
            for g, full, span in f["calls"]:
                if SOURCE.search(g) or SOURCE.search(full):
                    rep.violation(f"{f['path']}: {g}", factsdb.rel(span), f"{f['path']} calls {full}: the result depends on more than the arguments")
            rep.count("calls", len(f["calls"]))
    rep.floor("functions", n, 3500, "functions of the libraries")
    H = HashOrder(ctx.mir, CR)
    for kind, key, where, text in sorted(set(H.run())):
        if kind == "viol":
            rep.violation(key, where, text)
        else:
            rep.unknown(f"{where}: {text}")
    rep.count("hash_table_uses", H.sites)
    m = ctx.mir
    for f in ctx.prog.fns:
        if f.crate not in CR or not f.blocks:
            continue
        for i in m.callees(f):
            g = ctx.prog.fns[i]
            if g.crate not in CR and g.kind in ("item", "intrinsic") and (SOURCE.search(g.path) or SOURCE.search(g.full)):
                rep.violation(f"{f.path}: {g.path}", f.span or "", f"{f.path} uses {g.full}: the result depends on more than the arguments")
        for b in f.blocks:
            for pl, rv, sp in b["s"]:
                rep.count("statements", 1)
                if rv[0] == "cast" and "Expose" in str(rv[1]):
                    rep.violation(f"{f.path}: address", factsdb.rel(sp), f"{f.path} uses an address as a number")
    rep.assume |= {"serde_json, binrw, itertools, ahash and std containers are deterministic apart from the iteration order of hash tables"}
