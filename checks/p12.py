"""P12: the optimiser changes nothing a run can show."""
import moncheck


def run(ctx):
    moncheck.run(ctx, "opt", 45, 700)
    moncheck.need(ctx, "runs_defined", "bodies_changed_by_the_optimiser", "events_compared")
    ctx.rule = "random function bodies run before and after by an interpreter with C semantics; non-trivial: distinct trace of calls and end of a defined run"
    ctx.assumptions = ["runs with overflow, division by zero, oversized shifts or uninitialised reads have no meaning to preserve", "int is 32 bits"]
