"""P07: the translation of a program that needs no unsafe code has none."""
import collections, os, shutil, tempfile
import fw, agen, cgen, mgen, diffrun

SAFE = ["struct_value", "struct_ptr", "struct_ret", "struct_array", "array", "array_param", "array2d", "ptr", "heap", "heap_struct", "double", "fnptr", "enum",
        "unsigned", "exit", "abs", "darray", "fntable", "struct_in_ptr", "matrix", "char", "struct_init", "struct_arrparam", "fntypedef", "enum_index", "define", "size", "mixed", "records"]


def one(a):
    decy, scratch, seed = a
    if seed % 8 == 4:
        g = mgen.Typed(seed)
        src = g.program()
    elif seed % 4 == 0:
        g = cgen.Gen(seed)
        src = g.program(globals_ok=False)
    else:
        g = agen.AGen(seed)
        src = g.program(scenarios=SAFE)
    d = tempfile.mkdtemp(dir=scratch)
    try:
        with open(d + "/p.c", "w") as f:
            f.write(src)
        rc, o, e = diffrun.translate(decy, d)
        if rc != 0:
            return seed, "skip", "not translated", src, "", sorted(g.feats)
        with open(d + "/p.rs", "wb") as f:
            f.write(o)
        rc, _, e = diffrun.sh(["rustc", "+stable", "--edition", diffrun.EDITION, "-A", "warnings", "-F", "unsafe_code", "--emit=metadata", "-o", d + "/p.rmeta", d + "/p.rs"], 120)
        err = e.decode(errors="replace")
        rust = o.decode(errors="replace")
        if rc == 0:
            return seed, "ok", "", src, rust, sorted(g.feats)
        i = err.find("error: usage of an `unsafe`")
        if i < 0 and "unsafe_code" in err:
            i = 0
        # code that does not compile for another reason is the matter of P01 and P02
        return seed, ("unsafe" if i >= 0 else "skip"), err[max(i, 0):][:1500], src, rust, sorted(g.feats)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    decy = fw.build(["decy"])["decy"]
    verd, feats, seen = collections.Counter(), collections.Counter(), set()
    items = ((decy, ctx.scratch, ctx.seed * 1000037 + i) for i in range(4000 if ctx.quick else 60000))
    for seed, v, info, src, rust, fs in fw.pmap(one, items, 80 if ctx.quick else 600):
        verd[v] += 1
        if v == "ok":
            ctx.evaluations += 1
            feats.update(fs)
            seen.add(hash(rust))
            if len(ctx.samples) < 3:
                ctx.samples.append({"seed": seed, "rust_lines": rust.count("\n"), "functions": rust.count("\nfn "), "unsafe": 0})
        elif v == "unsafe":
            ctx.violation(f"unsafe code in the translation (generator seed {seed}): {info}", {"p.c": src, "p.rs": rust, "rustc.txt": info})
            if len(ctx.violations) > 20:
                break
    if verd["skip"] > verd["ok"] and not ctx.violations:
        raise RuntimeError("most programs do not compile")
    ctx.evaluations += len(ctx.violations)
    ctx.distinct = len(seen) or len(ctx.violations)
    ctx.cov.update({"verdicts": dict(verd), "features": dict(feats.most_common(120)), "programs": verd["ok"]})
    ctx.rule = "random programs without globals, raw linked structures and pointer variables; non-trivial: distinct translation that rustc accepts with unsafe code forbidden"
    ctx.assumptions = ["rustc's unsafe_code lint at level forbid sees every use of unsafe"]
