"""P21: the CITL oracle's exports, statistics, decisions and verdicts over every history."""
import moncheck


def run(ctx):
    moncheck.run(ctx, "oracle", 60, 600)
    moncheck.need(ctx, "trace_datasets", "example_datasets", "metric_histories", "baselines", "sweeps", "promotions", "experiments", "training_sets", "retrainings", "verdict_batches")
    ctx.rule = "random traces, histories and training sets; non-trivial: distinct shape of the recorded history and its outcome"
    ctx.assumptions = ["files are exported and reloaded by one caller at a time; compile verdicts are asked for concurrently"]
