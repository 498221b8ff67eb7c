"""P04: the same text always gives the same translation."""
import fw, moncheck


def run(ctx):
    b = fw.build(["decy", "mon"])
    moncheck.run(ctx, "determ", 60, 600, binary=b["mon"], args=(fw.ROOT + "/corpus", b["decy"]))
    moncheck.need(ctx, "concurrent_translations", "fresh_processes", "translated")
    ctx.rule = "sources translated again in another order, on eight threads, by other entry points and by fresh processes; non-trivial: distinct source text"
    ctx.assumptions = ["an error counts as the same answer whatever its message"]
