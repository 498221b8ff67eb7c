"""P26: the debugger's views show the file."""
import fw, moncheck


def run(ctx):
    b = fw.build(["mon"])
    moncheck.run(ctx, "views", 40, 600, binary=b["mon"])
    moncheck.need(ctx, "functions", "tree_lines", "hir_lines", "ownership_lines", "colour_views", "refusals")
    ctx.rule = "random files printed from a known tree and shown in three views with and without colours; non-trivial: distinct file"
    ctx.assumptions = ["the layout (blanks within a line, empty lines) is free outside the source listing"]
