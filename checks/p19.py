"""P19: the model registry over every history."""
import moncheck


def run(ctx):
    moncheck.run(ctx, "registry", 40, 600)
    moncheck.need(ctx, "registrations", "rollbacks", "rollbacks_to", "reloads")
    ctx.rule = "random histories of registrations, rollbacks and reloads; non-trivial: distinct sequence of outcomes"
    ctx.assumptions = ["versions are registered by one caller at a time"]
