"""P24: included headers count as their text."""
import fw, moncheck


def run(ctx):
    b = fw.build(["decy", "mon"])
    moncheck.run(ctx, "incl", 50, 600, binary=b["mon"], args=(fw.ROOT + "/corpus", b["decy"]))
    moncheck.need(ctx, "split_programs", "missing_headers", "header_sequences", "declarations_against_the_c_library", "own_functions_compared")
    ctx.rule = "programs cut into trees of headers and translated whole; standard headers in random sequences; non-trivial: distinct main file or header sequence"
    ctx.assumptions = ["a header is cut between lines that end a declaration, a statement or a block", "a header included more than once has a guard or #pragma once",
                       "the C library of this machine is the reference for the standard headers; wint_t and va_list are the implementation's"]
