"""P13: the parser reads what is written."""
import moncheck


def run(ctx):
    moncheck.run(ctx, "parse", 45, 600)
    moncheck.need(ctx, "statements", "functions", "respelled")
    ctx.rule = "random syntax trees printed as C in random spellings and read back; non-trivial: distinct source text"
    ctx.assumptions = ["one source file, no preprocessor directives", "string literals are kept as spelled, do-while as an endless loop left at its end, a const on array elements is not kept"]
