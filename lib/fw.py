"""Common frame of every check: build, tiers, known findings, evidence, verdict lines."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ProcessPoolExecutor, as_completed, wait, FIRST_COMPLETED

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(ROOT, "harness")
NPROC = min(8, os.cpu_count() or 1)


def build(bins, features=(), env=None, target=None, toolchain="+stable", extra=(), crate="harness"):
    """Builds the named harness binaries from /repo's current tree; a build failure is no verdict (exit 2)."""
    t = target or os.path.join(ROOT, crate, "target")
    cmd = ["cargo", toolchain, "build", "--offline", "--quiet", "--manifest-path", f"{ROOT}/{crate}/Cargo.toml",
           "--target-dir", t, *extra]
    for b in bins:
        cmd += ["--bin", b]
    e = {k: v for k, v in os.environ.items() if k not in ("RUSTC_WRAPPER", "CARGO_TARGET_DIR")}
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    lim = time.time() + 1500
    p = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=1500)
    if p.returncode != 0:
        sys.stderr.write(p.stderr[-6000:])
        print("HARNESS-ERROR: the harness does not build against /repo")
        sys.exit(2)
    d = "debug"
    for i, a in enumerate(extra):
        if a == "--target":
            d = extra[i + 1] + "/debug"
    return {b: os.path.join(t, d, b) for b in bins}


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"decyv-{prop}-")
        self.violations = []
        self.known_seen = []
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.rule = ""
        self.evaluations = 0
        self.distinct = 0
        self.known = load_known(prop)

    def elapsed(self):
        return time.time() - self.t0

    def violation(self, what, files=None, key=None):
        """Records a violation; files: {name: text} saved for replay."""
        d = os.path.join(ROOT, "build", "replay", f"{self.prop}-{len(self.violations) + 1}")
        if len(self.violations) < 10:
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d, exist_ok=True)
            for n, t in (files or {}).items():
                with open(os.path.join(d, n), "wb") as f:
                    f.write(t if isinstance(t, bytes) else str(t).encode(errors="replace"))
            with open(os.path.join(d, "what.txt"), "w") as f:
                f.write(what + "\n")
        self.violations.append((what, d))
        if len(self.violations) <= 10:
            print("  broken: " + what.split("\n")[0][:300], flush=True)

    def finding(self, fid, still_fails, detail=""):
        """A listed known finding whose probe was run."""
        k = self.known.get(fid)
        if not still_fails:
            return
        if k is None:
            self.violation(f"probe {fid} fails and is not a listed finding: {detail}")
        else:
            self.known_seen.append(fid)
            print(f"KNOWN-FINDING: property={self.prop} {fid}: {k}", flush=True)

    def finish(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        if self.evaluations == 0 or self.distinct == 0:
            print(f"HARNESS-ERROR: {self.prop} observed nothing ({self.evaluations} evaluations)")
            code = 2
        else:
            code = 0
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
              "coverage": {"evaluations": self.evaluations, "distinct_nontrivial": self.distinct,
                           "rule": self.rule, "samples": self.samples[:5], **self.cov},
              "wall_s": round(self.elapsed(), 2), "violations": len(self.violations),
              "assumptions": self.assumptions}
        os.makedirs(ROOT + "/evidence", exist_ok=True)
        with open(f"{ROOT}/evidence/{self.prop}.json", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        obs = {k: v for k, v in self.cov.items() if isinstance(v, (int, float, str))}
        print(f"{self.prop} {self.tier} seed={self.seed}: {self.evaluations} evaluations, {self.distinct} distinct, "
              f"{len(self.violations)} violations, {self.elapsed():.0f} s; {json.dumps(obs)}")
        if self.violations:
            for what, d in self.violations[:5]:
                print(f"VIOLATION property={self.prop} replay={d}")
            code = 1
        sys.exit(code)


def load_known(prop):
    out = {}
    p = ROOT + "/known-findings.txt"
    if os.path.exists(p):
        for line in open(p):
            if line.startswith(f"known: property={prop} "):
                rest = line.split(" ", 2)[2].strip()
                fid, _, what = rest.partition(" ")
                out[fid] = what
    return out


def pmap(fn, items, budget, nproc=None, chunk=1):
    """Runs fn over items (an iterator) in parallel processes until it is used up or the time budget ends.
    Yields results as they come."""
    end = time.time() + budget
    it = iter(items)
    n = nproc or NPROC
    with ProcessPoolExecutor(n) as ex:
        live = set()
        done_feeding = False
        while True:
            while not done_feeding and len(live) < n * 2:
                if time.time() > end:
                    done_feeding = True
                    break
                try:
                    live.add(ex.submit(fn, next(it)))
                except StopIteration:
                    done_feeding = True
            if not live:
                return
            done, live = wait(live, return_when=FIRST_COMPLETED)
            for f in done:
                yield f.result()
