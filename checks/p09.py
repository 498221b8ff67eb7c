"""P09: the cache answers only what is still true, over any history, and survives interrupted saves."""
import moncheck


def run(ctx):
    moncheck.run(ctx, "cache", 60, 600)
    moncheck.need(ctx, "lookups_fresh", "lookups_stale", "lookups_absent", "saves_interrupted", "saves_completed")
    ctx.rule = "random histories of file edits, inserts, lookups, saves and loads, and saves cut off at a byte; non-trivial: distinct history"
    ctx.assumptions = ["a save is cut off by the file-size limit of the process: every prefix of the written bytes can be what is left", "file contents do not change during one call"]
