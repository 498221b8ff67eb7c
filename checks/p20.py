"""P20: the learning loop's bookkeeping."""
import moncheck


def run(ctx):
    moncheck.run(ctx, "learn", 45, 600)
    moncheck.need(ctx, "queue_steps", "predictions_processed", "error_logs", "tunings", "classifications")
    ctx.rule = "random histories of samples, labels, errors and predictions; non-trivial: distinct history"
    ctx.assumptions = ["confidences lie between 0 and 1"]
