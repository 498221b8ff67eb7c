"""P27: the language-model loop passes on what it was given and counts what happened."""
import fw, moncheck


def run(ctx):
    b = fw.build(["mon"])
    moncheck.run(ctx, "llm", 20, 400, binary=b["mon"])
    moncheck.need(ctx, "context_steps", "prompts", "summary_lines", "responses_with_code", "responses_without_code", "verdicts", "retry_states", "metric_steps")
    ctx.rule = "random contexts, prompts, responses, retry histories and metrics, each state compared with a model; non-trivial: distinct prompt or response"
    ctx.assumptions = ["a response has at most one block of Rust code; a block without a language has no inner fence with one"]
