"""P08: the unsafe audit counts what is there."""
import moncheck


def run(ctx):
    moncheck.run(ctx, "audit", 40, 600)
    moncheck.need(ctx, "unsafe_blocks", "unsafe_functions", "files_without_unsafe", "above_target", "below_target", "malformed_files")
    ctx.rule = "random Rust files; non-trivial: distinct file with its number of unsafe blocks and functions, counted by the generator and by a token scan that agree"
    ctx.assumptions = ["a file syn parses is valid Rust for the audit", "unsafe impl, unsafe trait and extern blocks are outside the count"]
