"""P02: the translation of programs over structs, arrays, pointers, strings and heap memory behaves like the C."""
import fw, agen, mgen, progcheck


def gen(seed):
    g = agen.AGen(seed) if seed % 4 else mgen.Typed(seed)
    return g.program(), g.feats


def run(ctx):
    decy = fw.build(["decy"])["decy"]
    budget = 170 if ctx.quick else 780
    verd, feats, lines, outs = progcheck.run_random(ctx, decy, gen, budget, 3000 if ctx.quick else 60000, ctx.seed * 1000003)
    ctx.evaluations = verd["ok"] + len(ctx.violations)
    ctx.distinct = len(outs)
    ctx.cov.update({"verdicts": dict(verd), "trace_lines_compared": lines, "features": dict(feats.most_common(160)), "distinct_features": len(feats)})
    progcheck.run_probes(ctx, decy)
    ctx.rule = "random programs over structs, arrays, pointers, heap, strings, enums and function pointers; non-trivial: distinct observed output of a program whose C run is defined"
    ctx.assumptions = ["clang -O0 with UBSan traps is the C semantics", "rustc stable with debug assertions runs the translation", "stdout and exit status are what a user observes"]
