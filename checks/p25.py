"""P25: C++ classes and namespaces, and CUDA files, keep their meaning."""
import collections, os, re, shutil, tempfile
import fw, diffrun, cppgen

DECL = re.compile(r'extern\s+"C"\s*\{(.*?)\}', re.S)
FN = re.compile(r'\bfn\s+(\w+)\s*\(([^)]*)\)\s*(->\s*[\w*: ]+)?\s*;')
DEF = re.compile(r'\bfn\s+(\w+)\s*\([^)]*\)[^;{]*\{')


def kernels_of(rust):
    found = {}
    for block in DECL.findall(rust):
        for name, ps, ret in FN.findall(block):
            found[name] = ([tuple(x.strip() for x in p.split(":", 1)) for p in ps.split(",") if p.strip()], ret.strip())
    return found


def ffi(t):
    return t.replace("*const ", "*mut ").replace("core::ffi::", "").replace("std::ffi::", "")


def cuda_rules(rust, kernels, device):
    """What the translation of a CUDA file declares and defines."""
    rust = re.sub(r"//[^\n]*", "", rust)
    decl = kernels_of(rust)
    defs = DEF.findall(rust)
    for k, want in kernels.items():
        if k in defs:
            return f"the body of kernel {k} is translated; it is compiled separately"
        if k not in decl:
            return f"kernel {k} is not declared"
        got, ret = decl[k]
        if ret not in ("", "-> ()"):
            return f"kernel {k} is declared with the result {ret}"
        if [(n, ffi(t)) for n, t in got] != list(want):
            return f"kernel {k} is declared with {got}; the C++ parameters are {want}"
    for d in device:
        if d in defs or d in decl:
            return f"device function {d} appears in the host translation"
    for k in decl:
        if k not in kernels:
            return f"{k} is declared as a kernel and is none"
    return None


def one(a):
    decy, scr, seed = a
    d = tempfile.mkdtemp(dir=scr)
    try:
        P = cppgen.Program(seed)
        kern = None
        if seed % 4 == 3:
            text, kern, dev, cpp, rust = P.cuda()
            fn = "p.cu"
        else:
            text, cpp, rust = P.cplus()
            fn = "p.cpp"
        for n, t in ((fn, text), ("drv.cpp", cpp)):
            with open(d + "/" + n, "w") as f:
                f.write(t)
        files = {fn: text, "driver.cpp": cpp}
        rc, o, e = diffrun.sh(["clang++", "-x", "c++", "-w", "-O0", "-g0", "-fsanitize=undefined", "-fsanitize-trap=all", d + "/drv.cpp", "-o", d + "/c"], 60)
        if rc != 0:
            return seed, "skip", e.decode(errors="replace")[:200], files, P.events, fn, 0
        rc, cout, _ = diffrun.sh([d + "/c"], 10)
        if rc != 0:
            return seed, "skip", f"c++ {rc}", files, P.events, fn, 0
        rc, o, e = diffrun.translate(decy, d, fn)
        if rc != 0:
            return seed, "refused", f"decy transpile ends with {rc}: {e.decode(errors='replace')[:300]}", files, P.events, fn, 0
        rs = o.decode(errors="replace")
        files["p.rs"] = rs + rust
        if kern is not None:
            bad = cuda_rules(rs, kern, dev)
            if bad:
                return seed, "cuda", bad, files, P.events, fn, 0
        with open(d + "/p.rs", "w") as f:
            f.write(rs + rust)
        rc, _, e = diffrun.rustc(d)
        if rc != 0:
            return seed, "rustfail", e.decode(errors="replace")[:500], files, P.events, fn, 0
        rc, rout, e = diffrun.sh([d + "/r"], 20)
        if rc != 0 or rout != cout:
            c, q = cout.decode().split("\n"), rout.decode(errors="replace").split("\n")
            w = next(((i, x, y) for i, (x, y) in enumerate(zip(c, q)) if x != y), (min(len(c), len(q)), "", ""))
            return seed, "diff", f"exit {rc}; line {w[0]}: C++ {w[1]!r}, Rust {w[2]!r}; {e.decode(errors='replace')[:200]}", files, P.events, fn, 0
        return seed, "ok", "", files, P.events, fn, len(kern or ()) + cout.count(b"\n")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    b = fw.build(["decy"])
    verd = collections.Counter()
    calls = obs = classes = methods = spaces = kern = inherit = 0
    lim, n = (70, 900) if ctx.quick else (900, 40000)
    items = ((b["decy"], ctx.scratch, ctx.seed * 1000003 + i) for i in range(n))
    for seed, v, info, files, ev, fn, seen in fw.pmap(one, items, lim):
        verd[v] += 1
        if v == "ok":
            calls += ev
            obs += seen
            t = files[fn]
            classes += t.count("class ")
            inherit += t.count(" : public ")
            spaces += t.count("namespace ")
            kern += t.count("__global__")
            if len(ctx.samples) < 3:
                ctx.samples.append({"seed": seed, "file": fn, "lines": t.count("\n"), "values_compared": seen})
        elif v != "skip":
            ctx.violation(f"{v} (generator seed {seed}): {info}", files)
            if len(ctx.violations) > 10:
                break
    ctx.cov.update({"programs": verd["ok"], "verdicts": dict(verd), "calls_driven": calls, "values_compared": obs, "classes": classes,
                    "derived_classes": inherit, "namespaces": spaces, "kernels_compared": kern})
    if not ctx.violations and (verd["ok"] < 100 or not (classes and inherit and spaces and kern)):
        raise RuntimeError(f"too little explored: {dict(verd)}")
    ctx.evaluations, ctx.distinct = calls, obs
    ctx.rule = "calls of methods and functions (with distinct drivers and texts) whose results were compared with the C++ build under UBSan; non-trivial: the program compiles on both sides and runs to the end"
    ctx.assumptions = ["int fields and arrays of int; constructors that store their parameters", "methods that call no other method; a base class without a constructor",
                       "the file has an extern \"C\" declaration or a CUDA keyword, by which decy recognises C++"]
