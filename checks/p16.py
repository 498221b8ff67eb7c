"""P16: lock analysis reports exactly the unguarded accesses, unmatched locks and conflicting orders."""
import moncheck


def run(ctx):
    moncheck.run(ctx, "locks", 40, 600)
    moncheck.need(ctx, "lock_regions", "unprotected_accesses", "unmatched_locks", "orders_conflicting", "orders_consistent")
    ctx.rule = "random functions with lock and unlock calls around statements of every kind; non-trivial: distinct set of regions, unguarded accesses and unmatched calls, or of lock orders"
    ctx.assumptions = ["locks are taken and released by statements of the function body on a named mutex; no mutex is taken twice before its release"]
