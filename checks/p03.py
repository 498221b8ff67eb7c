"""P03: the run of a translated program touches only live, initialised memory and gives local heap blocks back."""
import collections, os, re, shutil, tempfile
import fw, agen, diffrun

# here heap memory is held by raw pointers, which the translation never frees (finding raw-free)
RAW = ("heap_list", "tree", "stack", "bst", "heap2d")
LOCAL = [s for s in agen.AGen.ALL if s not in RAW]
NIGHTLY = os.path.expanduser("~/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu/bin/")


def monitors(d, leaks, cout, ccode):
    """The translation p.rs under the interpreter and under the sanitizer; what each saw."""
    seen = []
    rc, o, e = diffrun.sh([NIGHTLY + "miri", "--sysroot", os.path.expanduser("~/.cache/miri"), "--edition", diffrun.EDITION, "--cap-lints", "allow",
                           "-Zmiri-disable-stacked-borrows", d + "/p.rs"], 120)
    err = e.decode(errors="replace")
    if rc == "timeout":
        seen.append(("skip", "miri timeout"))
    elif "Undefined Behavior" in err or "memory leaked" in err:
        seen.append(("miri", err[err.find("error"):][:1500]))
    elif (o, rc) != (cout, ccode):
        # a panic or a difference is the matter of P02; a program that did not run shows nothing
        seen.append(("skip", err[:300]))
    else:
        seen.append(("ok", o.decode(errors="replace")))
    rc, o, e = diffrun.sh(["rustc", "+nightly", "--edition", diffrun.EDITION, "--cap-lints", "allow", "-Zsanitizer=address", "-C", "debuginfo=1", "-o", d + "/r", d + "/p.rs"], 120)
    if rc != 0:
        return seen + [("skip", "rustc: " + e.decode(errors="replace")[:300])]
    rc, o, e = diffrun.sh(["env", f"ASAN_OPTIONS=detect_leaks={int(leaks)}:exitcode=86", d + "/r"], 60)
    err = e.decode(errors="replace")
    if rc == "timeout":
        seen.append(("skip", "asan timeout"))
    elif "LeakSanitizer has encountered a fatal error" in err:
        seen.append(("skip", "leak scan refused"))
    elif "ERROR: AddressSanitizer" in err or "ERROR: LeakSanitizer" in err:
        seen.append(("asan", err[err.find("ERROR"):][:1500]))
    elif (o, rc) != (cout, ccode):
        seen.append(("skip", err[:300]))
    else:
        seen.append(("ok", o.decode(errors="replace")))
    return seen


def watch(decy, src, scratch, leaks):
    d = tempfile.mkdtemp(dir=scratch)
    try:
        ref = diffrun.c_reference(d, src)
        if ref[0] == "skip":
            return [("skip", ref[1])], ""
        rc, o, e = diffrun.translate(decy, d)
        if rc != 0:
            return [("skip", "not translated")], ""
        with open(d + "/p.rs", "wb") as f:
            f.write(o)
        return monitors(d, leaks, ref[1], ref[2]), o.decode(errors="replace")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one(a):
    decy, scratch, seed = a
    g = agen.AGen(seed)
    raw = seed % 3 == 0
    src = g.program(scenarios=agen.AGen.ALL if raw else LOCAL, wrap=True)
    seen, rust = watch(decy, src, scratch, not raw)
    return seed, raw, seen, src, rust, sorted(g.feats)


def probe(a):
    decy, scratch, path = a
    seen, _ = watch(decy, open(path).read(), scratch, True)
    return os.path.basename(path)[:-2], seen


def run(ctx):
    decy = fw.build(["decy"])["decy"]
    verd, feats, outs, skips = collections.Counter(), collections.Counter(), set(), collections.Counter()
    items = ((decy, ctx.scratch, ctx.seed * 1000033 + i) for i in range(2000 if ctx.quick else 40000))
    for seed, raw, seen, src, rust, fs in fw.pmap(one, items, 100 if ctx.quick else 780):
        for v, info in seen:
            verd[v] += 1
            if v == "skip":
                skips[re.sub(r"\W+", " ", info)[:40]] += 1
            if v not in ("ok", "skip"):
                ctx.violation(f"{v} (generator seed {seed}): {info}", {"p.c": src, "p.rs": rust, "seen.txt": info})
        if [v for v, _ in seen] == ["ok", "ok"]:
            ctx.evaluations += 1
            feats.update(fs)
            outs.add(hash(seen[0][1]))
            verd["leak_checked"] += not raw
            if len(ctx.samples) < 3:
                ctx.samples.append({"seed": seed, "monitors": "miri and asan quiet", "output": seen[0][1][:120]})
        if len(ctx.violations) > 20:
            break
    ctx.evaluations += len(ctx.violations)
    ctx.distinct = len(outs) or len(ctx.violations)
    ctx.cov.update({"verdicts": dict(verd), "features": dict(feats.most_common()), "not_run": dict(skips.most_common(8)), "programs": verd["ok"]})
    if verd["skip"] > verd["ok"] and not ctx.violations:
        raise RuntimeError(f"most programs did not run under the monitors: {skips.most_common(3)}")
    d = os.path.join(fw.ROOT, "probes", ctx.prop)
    for name, seen in fw.pmap(probe, [(decy, ctx.scratch, os.path.join(d, f)) for f in sorted(os.listdir(d))], 600):
        bad = [x for x in seen if x[0] not in ("ok", "skip")]
        ctx.finding(name, bool(bad), str(bad)[:200])
    ctx.rule = "random programs as of P02 run under Miri and under AddressSanitizer with leak detection; non-trivial: distinct output of a program both monitors ran to its end"
    ctx.assumptions = ["Miri without the experimental aliasing model", "heap blocks held by raw pointers are not freed by the translation (finding raw-free), so leaks are judged on programs without them"]
