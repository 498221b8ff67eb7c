"""P15: the compile verdict is rustc's."""
import fw, moncheck


def run(ctx):
    b = fw.build(["decy", "mon"])
    moncheck.run(ctx, "verify", 60, 600, binary=b["mon"], args=(fw.ROOT + "/corpus", b["decy"]))
    moncheck.need(ctx, "accepted", "refused", "concurrent_batches", "command_lines_accepted", "command_lines_refused")
    ctx.rule = "random Rust files made of items that do and do not compile, checked six at a time, and translations checked by --verify; non-trivial: distinct Rust text"
    ctx.assumptions = ["rustc on the PATH is the reference", "lint names are not error codes"]
