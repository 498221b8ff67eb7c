"""Runs an in-process monitor of harness/src/mon in parallel shards and joins what they observed."""
import json, os, subprocess, array
import fw


def run(ctx, monitor, quick_s, thorough_s, shards=None, binary=None, env=None, prefix="", args=()):
    b = binary or fw.build(["mon"])["mon"]
    secs = quick_s if ctx.quick else thorough_s
    n = shards or fw.NPROC
    ps = []
    for k in range(n):
        d = f"{ctx.scratch}/{monitor}{k}"
        os.makedirs(d)
        e = dict(os.environ, RUST_BACKTRACE="0", TMPDIR=d, **(env or {}))
        ps.append((k, d, subprocess.Popen([b, monitor, ctx.tier, str(ctx.seed * 64 + k), str(secs), d, *args], env=e,
                                          stdout=open(d + ".out", "wb"), stderr=open(d + ".err", "wb"))))
    seen = set()
    for k, d, p in ps:
        try:
            rc = p.wait(timeout=secs + 240)
        except subprocess.TimeoutExpired:
            for _, _, q in ps:
                q.kill()
            # the monitor looks at the clock between calls: one call took four minutes
            ctx.violation(f"{prefix}a monitored call does not return (monitor {monitor}, seed {ctx.seed * 64 + k})", {"stderr.txt": open(d + ".err", errors="replace").read()[-4000:]})
            ctx.evaluations, ctx.distinct = max(ctx.evaluations, 1), max(ctx.distinct, 1)
            return
        err = open(d + ".err", errors="replace").read()
        if rc in (-11, -6, -4, -7, -8):
            # panics are contained, so this is an abort, a fault or an exhausted stack in the code under test
            ctx.violation(f"{prefix}the process dies from signal {-rc} (monitor {monitor}, seed {ctx.seed * 64 + k}): {(next((l for l in err.splitlines() if "ERROR: " in l), "") or err.strip())[-300:]}",
                          {"stderr.txt": err[:20000], "last.c": open(d + "/last.c", errors="replace").read() if os.path.exists(d + "/last.c") else ""})
            ctx.evaluations, ctx.distinct = max(ctx.evaluations, 1), max(ctx.distinct, 1)
            continue
        if rc == 99 and "detected memory leaks" in err:
            ctx.violation(f"{prefix}memory is lost (monitor {monitor}, seed {ctx.seed * 64 + k}): " + " ".join(l.strip() for l in err.splitlines() if "leak of" in l)[:300], {"stderr.txt": err[:20000]})
        elif rc == 99 and "LeakSanitizer has encountered a fatal error" in err:
            ctx.cov["leak_scans_refused"] = ctx.cov.get("leak_scans_refused", 0) + 1
        elif rc != 0:
            raise RuntimeError(f"monitor {monitor} shard {k} ended with {rc}: {err[-2000:]}")
        r = json.load(open(d + ".out"))
        ctx.evaluations += r["evaluations"]
        a = array.array("Q")
        a.frombytes(open(d + "/seen.bin", "rb").read())
        seen.update(a)
        for v in r["violations"]:
            ctx.violation(prefix + v["what"], v["files"])
        if k == 0:
            ctx.samples += r["samples"]
        for c, x in r["counts"].items():
            ctx.cov[c] = ctx.cov.get(c, 0) + x
    ctx.distinct += len(seen)


def need(ctx, *names):
    """A run in which the monitored event never happened decides nothing."""
    missing = [n for n in names if not ctx.cov.get(n)]
    if missing and not ctx.violations:
        raise RuntimeError(f"never observed: {', '.join(missing)}")
