"""P23: what is wrong with a C text is reported, where it is."""
import os, random, re
import fw, moncheck, diffrun, cgen


def bad_text(rng, seed):
    """A valid program with one mistake on a known line: (text, line, word of the message)."""
    src = cgen.Gen(seed).program()
    lines = [l for l in src.split("\n") if not l.startswith("#include")]
    lines = [l.replace("printf", "show") for l in lines]
    lines = ["int show(const char *, ...);"] + lines
    spots = [i for i, l in enumerate(lines) if l.strip().startswith("return ") and l.rstrip().endswith(";")]
    i = rng.choice(spots)
    how = rng.randrange(3)
    if how == 0:
        lines[i] = lines[i].replace("return ", "return nowhere_declared + ", 1)
        word = "nowhere_declared"
    elif how == 1:
        lines[i] = lines[i].rstrip()[:-1]
        word = "expected ';'"
    else:
        lines[i] = lines[i].replace("return ", "return ) ", 1)
        word = "expected expression"
    return "\n".join(lines), i + 1, word


def one(a):
    decy, scr, seed = a
    rng = random.Random(seed)
    src, line, word = bad_text(rng, seed)
    d = os.path.join(scr, f"t{seed}")
    os.makedirs(d)
    with open(d + "/p.c", "w") as f:
        f.write(src)
    rc, o, e = diffrun.sh(["clang", "-fsyntax-only", "-fno-color-diagnostics", "-fno-caret-diagnostics", "-w", "-DNULL=0", d + "/p.c"], 30)
    m = re.search(r"p\.c:(\d+):(\d+): error: (.*)", e.decode(errors="replace"))
    if not m:
        return seed, src, None, 0
    at = f":{m.group(1)}:{m.group(2)}"
    msgs = []
    for args in (["transpile", d + "/p.c"], ["transpile", d + "/p.c", "-o", d + "/p.rs"]):
        rc, o, e = diffrun.sh([decy, *args], 60)
        t = re.sub(r"\x1b\[[0-9;]*m", "", e.decode(errors="replace"))
        if rc == 0 or rc == "timeout":
            msgs.append(f"{' '.join(args[:1])} exits {rc} on a text with an error on line {line}")
        elif at not in t or m.group(3).split("[")[0].strip() not in t:
            msgs.append(f"clang: {m.group(0)!r}; the command line: {t[:300]!r}")
    if os.path.exists(d + "/p.rs"):
        msgs.append("an output file is written for a text with an error")
    return seed, src, "; ".join(msgs), int(m.group(1)) == line or word in m.group(3)


def run(ctx):
    b = fw.build(["mon", "decy"])
    moncheck.run(ctx, "diag", 35, 500, binary=b["mon"])
    moncheck.need(ctx, "diagnostics_compared", "explained_diagnostics", "accepted_texts", "refused_texts", "snippets_compared")
    n = 0
    base = ctx.seed * 100003
    for seed, src, bad, direct in fw.pmap(one, ((b["decy"], ctx.scratch, base + i) for i in range(120 if ctx.quick else 4000)), 25 if ctx.quick else 250):
        if bad is None:
            continue
        n += 1
        ctx.evaluations += 1
        if bad:
            ctx.violation(bad, {"p.c": src})
    ctx.cov["command_line_refusals"] = n
    p = os.path.join(fw.ROOT, "probes", "P23", "line-after-include.c")
    rc, o, e = diffrun.sh([b["decy"], "transpile", p], 60)
    ctx.finding("line-after-include", ":3:22" not in e.decode(errors="replace"), e.decode(errors="replace")[:200])
    ctx.rule = "texts damaged at random; every diagnostic compared with the clang program's; non-trivial: distinct (message, line, column) or accepted text"
    ctx.assumptions = ["clang 18 without spelling correction is the reference", "texts include nothing"]
