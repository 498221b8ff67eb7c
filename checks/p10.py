"""P10: dependency graphs and build orders."""
import moncheck


def run(ctx):
    moncheck.run(ctx, "graph", 40, 600)
    moncheck.need(ctx, "graphs_circular", "graphs_acyclic", "graphs_from_files", "include_lines")
    ctx.rule = "random graphs, and files on disk including one another; non-trivial: distinct set of edges"
    ctx.assumptions = ["an include is a line that begins with # and include, with any blanks before and between"]
