"""P17: metrics, reports and traces account for exactly what was recorded."""
import fw, moncheck


def run(ctx):
    b = fw.build(["mon"])
    moncheck.run(ctx, "ledger", 45, 600, binary=b["mon"], args=(fw.ROOT + "/corpus",))
    moncheck.need(ctx, "metric_steps", "reports", "traces", "traced_translations")
    ctx.rule = "random histories of recorded outcomes and decisions, and traced translations; non-trivial: distinct history"
    ctx.assumptions = ["the error code of a message is its first E followed by four digits"]
