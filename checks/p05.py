"""P05: any text gives a translation or an error."""
import fw, moncheck


def run(ctx):
    b = fw.build(["decy", "mon"])
    moncheck.run(ctx, "robust", 75, 900, binary=b["mon"], args=(fw.ROOT + "/corpus", b["decy"]))
    moncheck.need(ctx, "translated", "rejected", "command_lines")
    ctx.rule = "corpus files, generated files, unusual declarations, damaged copies and token soup; non-trivial: distinct text"
    ctx.assumptions = ["texts up to 40 kB nested up to 250 deep (clang itself stops at 256)", "a call that takes more than 60 s counts as a hang"]
