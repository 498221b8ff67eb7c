"""P22: the idiom detectors report exactly the idioms of the body."""
import moncheck


def run(ctx):
    moncheck.run(ctx, "idiom", 25, 500)
    moncheck.need(ctx, "output_parameters", "void_pointer_types", "tagged_unions", "subprocess_patterns", "lifetimes_Equal", "lifetimes_Outlives", "lifetimes_Independent")
    ctx.rule = "random bodies and structs built around known idioms, every report compared; non-trivial: distinct functions or structs"
    ctx.assumptions = ["each name is declared once per function"]
