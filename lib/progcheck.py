"""Shared driver of the program-level differential checks."""
import collections, os, random
import fw, diffrun

_DECY = None
_GEN = None
_SCR = None


def _init(decy, gen, scr):
    global _DECY, _GEN, _SCR
    _DECY, _GEN, _SCR = decy, gen, scr


def _one(a):
    decy, gen, scr, seed = a
    src, feats = gen(seed)
    v, info, rust = diffrun.diff_program(decy, src, scratch=scr)
    return seed, v, info, rust, src, sorted(feats)


def run_random(ctx, decy, gen, budget, max_programs, base, stop_after=5):
    """gen(seed) -> (source, features)."""
    verd = collections.Counter()
    feats = collections.Counter()
    lines = 0
    outs = set()
    items = ((decy, gen, ctx.scratch, base + i) for i in range(max_programs))
    for seed, v, info, rust, src, fs in fw.pmap(_one, items, budget):
        verd[v] += 1
        if v == "ok":
            feats.update(fs)
            lines += info.count("\n")
            outs.add(hash(info))
            if len(ctx.samples) < 3:
                ctx.samples.append({"seed": seed, "c_lines": src.count("\n"), "observed": info[:160]})
        elif v != "skip":
            if len(ctx.violations) < stop_after:
                ctx.violation(f"{v} (generator seed {seed}): {info}", {"p.c": src, "p.rs": rust, "info.txt": info})
            else:
                ctx.violations.append((f"{v}", ctx.violations[-1][1]))
                if len(ctx.violations) > 40:
                    break
    return verd, feats, lines, outs


def run_probes(ctx, decy):
    """The listed findings of this property, each by the exact program that fails."""
    d = os.path.join(fw.ROOT, "probes", ctx.prop)
    files = sorted(os.listdir(d)) if os.path.isdir(d) else []
    n = 0
    for name, v, info in fw.pmap(_probe, [(decy, ctx.scratch, d, f) for f in files], 600):
        if v == "skip":
            continue
        n += 1
        ctx.finding(name, v != "ok", f"{v}: {info[:200]}")
    ctx.cov["finding_probes_run"] = n


def _probe(a):
    decy, scr, d, f = a
    src = open(os.path.join(d, f)).read()
    v, info, _ = diffrun.diff_program(decy, src, scratch=scr, san="-fsanitize=undefined")
    return f[:-2], v, info
