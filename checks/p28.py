"""P28: what is derived from a function or struct follows it."""
import fw, moncheck


def run(ctx):
    b = fw.build(["mon"])
    moncheck.run(ctx, "derive", 30, 500, binary=b["mon"])
    moncheck.need(ctx, "feature_sets", "signatures", "refused_signatures", "structs", "enums", "enums_compiled", "lock_histories", "library_states")
    ctx.rule = "random functions, structs, unions, lock histories and pattern libraries, each derived value compared with the generator's; non-trivial: distinct input"
    ctx.assumptions = ["read, write, alias and arithmetic counts of the features are free", "member names of a union are Rust identifiers when capitalised"]
