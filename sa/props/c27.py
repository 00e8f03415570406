"""C27: the libraries have no effect besides the streams and files they are given."""
import re
import factsdb

CR = ("ssbh_lib", "ssbh_data", "ssbh_write")
BAD = re.compile(r"(^|::)(io::(_print|_eprint|stdout|stderr|stdin|stdio::\w+|Stdout|Stderr|Stdin)|process::(exit|abort|Command)|panic::(set_hook|take_hook|catch_unwind|resume_unwind)|"
                 r"env::\w+|net::\w+|thread::(spawn|scope|sleep|Builder|yield_now|park)|log::\w+|os::\w+::\w+|alloc::(set_alloc_error_hook|handle_alloc_error)|mem::forget|Box::<.*>::leak|Vec::<.*>::leak|String::leak)")
FS = re.compile(r"(^|::)fs::(\w+::)*(\w+)$|fs::(OpenOptions|File|DirBuilder)(::|>)")
FS_OK = re.compile(r"fs::(read|write|read_to_string|File::(open|create|options|metadata|sync_all|sync_data|flush|set_len)|OpenOptions::(new|read|write|create|truncate|open|append|create_new)|metadata|exists|try_exists|File as std::(io|ops))")


def run(ctx, rep):
    rep.explanation = ("Effect analysis: every call in every function of the libraries (closures and generated code included, reachable or not) is compared with the operations that affect "
                       "the process or the system. The file operations that remain are those of the path functions, whose path and order C23 and C33 decide.")
    rep.rules = ["nothing is printed, logged or read from standard input", "the process, its environment, threads, hooks and the network are not touched",
                 "files are only read or written as a whole; none is removed, renamed, linked or created elsewhere"]
    F = factsdb.Facts(ctx.x["facts"])
    n = fs = 0

    def judge(where, fn, g, full):
        nonlocal fs
        for t in (g, full):
            if BAD.search(t):
                rep.violation(f"{fn}: {g}", where, f"{fn} calls {full}")
                return
        if FS.search(g):
            fs += 1
            if not FS_OK.search(g):
                rep.violation(f"{fn}: {g}", where, f"{fn} calls {full}: more than reading or writing the given file")
    for c in CR:
        d = F.crate(c)
        for f in d["fns"]:
            n += 1
            for g, full, span in f["calls"]:
                judge(factsdb.rel(span), f["path"], g, full)
            rep.count("calls", len(f["calls"]))
    m = ctx.mir
    for f in ctx.prog.fns:
        if f.crate in CR and f.blocks:
            for i in m.callees(f):
                g = ctx.prog.fns[i]
                if g.crate not in CR and g.kind in ("item", "intrinsic"):
                    judge(factsdb.rel(f.span or ""), f.path, g.path, g.full if "io::Rd" not in g.full and "io::Wr" not in g.full else g.path)
    rep.floor("functions", n, 3500, "functions of the libraries")
    rep.floor("file_operations", fs, 10, "file operations")
