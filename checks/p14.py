"""P14: the differential test passes exactly when both programs print and exit alike."""
import os, random, signal, subprocess, time
import fw, moncheck, diffrun, cgen, agen

CASES = []


def cli(decy, path, scr, timeout=60, extra=()):
    """Runs diff-test in a process group of its own; None when it does not end in time."""
    env = dict(diffrun.ENV, TMPDIR=scr)
    p = subprocess.Popen([decy, "diff-test", path, *extra], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace"), e.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, "", ""


def plain_fails(rust, d):
    with open(d + "/plain.rs", "w") as f:
        f.write(rust)
    return diffrun.sh(["rustc", "--edition=2021", "-o", d + "/plain", d + "/plain.rs"], 60)[0] != 0


def one(a):
    decy, scr, name, src = a
    d = os.path.join(scr, f"cli-{os.getpid()}-{time.time_ns()}")
    t = d + "/tmp"
    os.makedirs(t)
    v, info, rust = diffrun.diff_program(decy, src, scratch=d, san="-fsanitize=undefined")
    if v in ("skip", "hang"):
        return name, "skip", "", src
    with open(d + "/p.c", "w") as f:
        f.write(src)
    rc, o, e = cli(decy, d + "/p.c", t)
    left = os.listdir(t)
    bad = ""
    if rc is None:
        bad = "diff-test does not end"
    elif rc != 0 and v == "ok" and plain_fails(rust, d):
        v = "lint"  # dead code that rustc refuses by default; not a verdict on behaviour
    elif (rc == 0) != (v == "ok"):
        bad = f"C and translation: {v} ({info[:120]!r}); diff-test exits {rc}: {(o + e)[:200]!r}"
    elif v == "ok" and "PASS" not in o:
        bad = f"diff-test succeeds without saying so: {o[:200]!r}"
    elif v == "diff" and ("FAIL" not in o or "differs" not in o):
        bad = f"diff-test fails without saying what differs: {o[:200]!r}"
    elif left:
        bad = f"diff-test leaves {left} in the temporary directory"
    return name, v, bad, src


def differ(seed):
    """Programs made to differ from their translation in one way: a wrap-around that Rust refuses, or a
    jump that the translation leaves out.  Whether they differ is found out by running both."""
    r = random.Random(seed)
    k = r.choice([0, 1, 2, 3, 7, 101, 101, 255])
    say = lambda: r.choice(['printf("start\\n");', 'printf("v %d\\n", n);', 'printf("x");', ";"])
    if r.random() < .5:
        return f"""#include <stdio.h>
unsigned int twice(unsigned int a) {{
    return a + a;
}}
int main(void) {{
    int n = {r.randint(1, 50)};
    {say()}
    unsigned int a = 2000000000;
    a = twice(a);
    {r.choice(["a = twice(a);", "a = twice(a);", "n++;"])}
    {r.choice([say(), ";", ";"])}
    if (a > 5) return {k};
    return 0;
}}
"""
    skipped = r.choice(['printf("\\n");', 'printf(" ");', 'printf("x");', 'printf("E");', "n++;", "n = 0;", 'printf("\\t\\n");'])
    return f"""#include <stdio.h>
int main(void) {{
    int n = {r.randint(1, 50)};
    {say()}
    if (n > {r.choice([0, 0, 60])}) goto out;
    {skipped}
out:
    {r.choice(['printf("end %d\\n", n);', 'printf("end\\n");', ";"])}
    return {r.choice([str(k), str(k), "n"])};
}}
"""


def sources(seed):
    for i in range(16):
        yield f"differ{seed}-{i}", differ(seed * 1009 + i)
    for p in ("P01", "P02"):
        d = os.path.join(fw.ROOT, "probes", p)
        for f in sorted(os.listdir(d)):
            yield f, open(os.path.join(d, f)).read()
    i = 0
    while True:
        i += 1
        s = seed * 7919 + i
        if i % 5 == 0:
            yield f"differ{s}", differ(s)
            continue
        yield f"gen{s}", (cgen.Gen(s).program() if i % 2 else agen.AGen(s).program())


def run(ctx):
    b = fw.build(["mon", "decy"])
    moncheck.run(ctx, "difft", 25, 400, binary=b["mon"])
    moncheck.need(ctx, "passing_pairs", "failing_pairs", "refused_pairs", "pairs_with_real_compilers", "rounds_of_four_at_once", "programs_run_alone")
    decy = b["decy"]
    n = 0
    cap = 110 if ctx.quick else 3000
    verd = {}
    items = ((decy, ctx.scratch, name, src) for k, (name, src) in zip(range(cap), sources(ctx.seed)))
    for name, v, bad, src in fw.pmap(one, items, 45 if ctx.quick else 350):
        verd[v] = verd.get(v, 0) + 1
        if v != "skip":
            n += 1
            ctx.evaluations += 1
        if bad:
            ctx.violation(f"{name}: {bad}", {"p.c": src})
    ctx.cov["command_line_verdicts"] = verd
    d = os.path.join(fw.ROOT, "probes", "P14")
    t = os.path.join(ctx.scratch, "probe-tmp")
    os.makedirs(t)
    rc, o, e = cli(decy, d + "/timeout-ignored.c", t, timeout=25, extra=("--timeout", "1"))
    ctx.finding("timeout-ignored", rc is None, "an endless program is not stopped")
    for f in ("libm-link", "local-include"):
        rc, o, e = cli(decy, f"{d}/{f}.c", t)
        ctx.finding(f, rc != 0, (o + e)[:200])
    ctx.rule = "pairs of programs with known output, error output and status; non-trivial: distinct pair. Command line: programs whose difference is established independently"
    ctx.assumptions = ["output is valid UTF-8 and the programs end by exiting", "stand-in compilers copy a script as the program; every fortieth pair goes through gcc and rustc"]
