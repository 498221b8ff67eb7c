"""P18: pointers are classified by what created them."""
import moncheck


def run(ctx):
    moncheck.run(ctx, "own", 25, 500)
    moncheck.need(ctx, "owners", "arrays", "array_copies", "copies", "dereferences", "array_parameters", "written_pointers", "functions_nested_three_deep")
    ctx.rule = "random nested function bodies with known pointer origins, every answer of the analysis compared with them; non-trivial: distinct functions"
    ctx.assumptions = ["each name is declared once per function"]
