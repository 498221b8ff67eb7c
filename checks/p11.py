"""P11: a project run writes, for every source file, what a run on that file alone gives, over any history."""
import collections, os, random, re, resource, shutil, signal, subprocess, time
import fw

DIRS = ["", "", "src", "src/core", "lib", "lib/a b", "inc", "deep/er/still"]
NAMES = ["main", "util", "a", "b.c", "x y", "list", "été", "m-1", "UP", "t_0"]


def header(r, k):
    g = f"H{k}_H"
    body = [f"#define LIMIT{k} {r.randrange(1, 90)}", f"struct Rec{k} {{ int first; {r.choice(['int second;', 'double second;', 'int second; int third;'])} }};",
            f"enum Mode{k} {{ MODE{k}_A, MODE{k}_B = {r.randrange(2, 30)} }};", f"int shared{k}(int v);"]
    keep = [b for b in body if r.random() < 0.75]
    return f"#ifndef {g}\n#define {g}\n" + "\n".join(keep) + f"\n#endif\n", [b[8:].split()[0] for b in keep if b.startswith("#define LIMIT")]


def source(r, k, incs):
    lines = [f'#include "{i}"' for i in incs]
    for j in range(r.randrange(1, 4)):
        n = f"f{k}_{j}"
        lines.append(r.choice([
            f"int {n}(int a, int b) {{\n    int t = a * {r.randrange(1, 50)} + b;\n    if (t > {r.randrange(100)}) {{\n        return t - b;\n    }}\n    return t;\n}}",
            f"int {n}(int n) {{\n    int s = 0;\n    for (int i = 0; i < n; i++) {{\n        s += i * {r.randrange(1, 9)};\n    }}\n    return s;\n}}",
            f"struct P{k}_{j} {{ int x; int y; }};\nint {n}(struct P{k}_{j} *p) {{\n    p->x = {r.randrange(50)};\n    return p->x + p->y;\n}}",
            f"static int total{k}_{j} = {r.randrange(9)};\nvoid {n}(int v) {{\n    total{k}_{j} = total{k}_{j} + v;\n}}",
        ]))
    if r.random() < 0.2:
        lines.append("int main(void) {\n    return 0;\n}")
    return "\n".join(lines) + "\n"


class Tree:
    def __init__(self, r, root):
        self.r, self.root, self.k = r, root, 0
        self.headers, self.sources = [], []
        os.makedirs(root)

    def put(self, rel, text):
        p = f"{self.root}/{rel}"
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)

    def incs(self, rel):
        d = os.path.dirname(rel)
        got = []
        for h, _ in self.r.sample(self.headers, min(len(self.headers), self.r.randrange(0, 3))):
            got.append(os.path.relpath("/" + h, "/" + d) if d else h)
        return got

    def add_header(self):
        self.k += 1
        rel = os.path.join(self.r.choice(["", "inc", "lib"]), f"h{self.k}.h")
        t, _ = header(self.r, self.k)
        if self.headers and self.r.random() < 0.3:      # a header including another one
            o = self.headers[-1][0]
            t = t.replace("\n", f'\n#include "{os.path.relpath("/" + o, "/" + os.path.dirname(rel))}"\n', 2).replace(f'#include "{os.path.relpath("/" + o, "/" + os.path.dirname(rel))}"\n', "", 1)
        self.put(rel, t)
        self.headers.append((rel, self.k))

    def add_source(self):
        self.k += 1
        for _ in range(20):
            rel = os.path.join(self.r.choice(DIRS), self.r.choice(NAMES) + ".c")
            if rel not in self.sources:
                break
        else:
            return
        self.put(rel, source(self.r, self.k, self.incs(rel)))
        self.sources.append(rel)

    def edit(self):
        if self.headers and self.r.random() < 0.5:
            rel, k = self.r.choice(self.headers)
            old = open(f"{self.root}/{rel}").read()
            inc = re.findall(r'#include .*', old)
            t, _ = header(self.r, k)
            if inc:
                a, b, c = t.split("\n", 2)
                t = "\n".join([a, b, *inc, c])
            self.put(rel, t)
            return "header"
        rel = self.r.choice(self.sources)
        self.k += 1
        self.put(rel, source(self.r, self.k, self.incs(rel)))
        return "source"


def snapshot(root, skip=()):
    out = {}
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if os.path.relpath(os.path.join(d, x), root) not in skip]
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root) + "/"] = None
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = open(p, "rb").read()
    return out


def call(args, **kw):
    return subprocess.run(args, capture_output=True, text=True, errors="replace", timeout=120, **kw)


def num(out, label):
    m = re.search(re.escape(label) + r":?\s+(\d+)", out)
    return int(m.group(1)) if m else None


def history(a):
    decy, scratch, seed = a
    r = random.Random(seed)
    cnt = collections.Counter()
    bad = []
    root = f"{scratch}/h{seed}"
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    t = Tree(r, root + "/in")
    for _ in range(r.randrange(0, 4)):
        t.add_header()
    for _ in range(r.randrange(1, 6)):
        t.add_source()
    if r.random() < 0.4:
        t.put(r.choice(["README.c.txt", "notes", "src/x.h~", "old.C", "Makefile", "inc/only.h"]), "int not_a_source(void) { return 1; }\n")
    trace = []
    sig = []

    def fail(what):
        log = "\n".join(trace)
        bad.append((f"{what} (history seed {seed})", {"history.txt": log, **{"in_" + k.replace("/", "__"): v for k, v in snapshot(t.root, (".decy",)).items() if v is not None}}))

    def alone():
        want = {}
        for s in t.sources:
            o = f"{root}/alone.rs"
            p = call([decy, "transpile", f"{t.root}/{s}", "-o", o])
            if p.returncode != 0:
                return None, s
            want[s[:-2] + ".rs"] = open(o, "rb").read()
            cnt["single_runs"] += 1
        return want, None

    outs = [root + "/out"]
    written = {outs[0]: {}}
    for step in range(r.randrange(4, 9)):
        op = r.choice(["run", "run", "run", "edit", "edit", "add", "del", "dry", "kill", "cut", "break", "out2", "check"]) if step else "run"
        trace.append(op)
        if op == "edit":
            trace[-1] += " " + t.edit()
            cnt["edits"] += 1
            op = "run"
        elif op == "add":
            t.add_source()
            op = "run"
        elif op == "del" and len(t.sources) > 1:
            s = t.sources.pop(r.randrange(len(t.sources)))
            os.remove(f"{t.root}/{s}")
            op = "run"
        elif op == "out2":
            outs.append(f"{root}/out{step}")
            written[outs[-1]] = {}
            op = "run"
        spoiled = None
        if op == "break":      # a source that is not C: the run must say so, and recover once it is mended
            spoiled = r.choice(t.sources)
            keep = open(f"{t.root}/{spoiled}").read()
            t.put(spoiled, keep + r.choice(["int broken( {\n", "int f( int a { return a; }\n", "struct {{ int\n", "return return;\n"]))
            op = "run"
        out = outs[-1]
        before_in = snapshot(t.root, (".decy",))
        if op == "check":
            p = call([decy, "check-project", t.root])
            cnt["check_runs"] += 1
            listed = re.findall(r"^  - (.*)$", p.stdout, re.M)
            order = re.findall(r"^  \d+\. (.*)$", p.stdout, re.M)
            if p.returncode != 0 or sorted(listed) != sorted(t.sources) or sorted(order) != sorted(t.sources):
                fail(f"check-project lists {listed} and orders {order}, the tree has {t.sources} (exit {p.returncode})")
            continue
        if op == "dry":
            full = snapshot(root)
            p = call([decy, "transpile-project", t.root, "-o", r.choice([out, root + "/never"]), "--dry-run"])
            cnt["dry_runs"] += 1
            if snapshot(root) != full:
                fail("a dry run changed files")
            named = re.findall(r"^Would transpile: (.*)$", p.stdout, re.M)
            if p.returncode != 0 or sorted(named) != sorted(t.sources):
                fail(f"a dry run names {sorted(named)}, the tree has {sorted(t.sources)} (exit {p.returncode})")
            continue
        if op in ("kill", "cut"):
            args = [decy, "transpile-project", t.root, "-o", out, "--quiet"]
            if op == "kill":
                q = subprocess.Popen(args, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                time.sleep(r.random() ** 2 * 0.12)
                q.kill()
                q.wait()
                cnt["killed_runs"] += q.returncode == -9
            else:
                n = r.choice([0, 1, 50, 120, 200, 400, 800])
                def limit():
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
                q = call(args, preexec_fn=limit)
                cnt["cut_off_runs"] += q.returncode != 0
            if snapshot(t.root, (".decy",)) != before_in:
                fail("an interrupted run changed the project")
            trace.append("then run")
            op = "run"
        flags = []
        if r.random() < 0.15:
            flags.append("--no-cache")
        mode = r.choice([["--stats"], ["--stats"], ["--verbose"], ["--quiet"], []])
        p = call([decy, "transpile-project", t.root, "-o", out, *flags, *mode])
        trace[-1] += f" {flags} {mode} exit {p.returncode}"
        cnt["project_runs"] += 1
        want, broken = alone()
        if want is None:
            cnt["failing_runs"] += 1
            if p.returncode == 0:
                fail(f"{broken} cannot be transpiled alone, but the project run succeeds")
            if not spoiled:
                fail(f"{broken} does not transpile: {call([decy, 'transpile', f'{t.root}/{broken}']).stderr[:300]}")
                break
            t.put(spoiled, keep)
            # outputs written before the run stopped
            if os.path.isdir(out):
                written[out].update({k: v for k, v in snapshot(out).items() if v is not None})
            continue
        if p.returncode != 0:
            fail(f"the project run fails although every file transpiles alone: {p.stderr[:300]}")
            continue
        written[out].update(want)
        got = {k: v for k, v in snapshot(out).items() if v is not None}
        if set(got) != set(written[out]):
            fail(f"output files {sorted(got)}, expected {sorted(written[out])}")
        for k, v in want.items():
            cnt["outputs_compared"] += 1
            if k in got and got[k] != v:
                fail(f"{k} differs from what transpiling {k[:-3]}.c alone gives")
                break
        if snapshot(t.root, (".decy",)) != before_in:
            fail("a project run changed the project")
        n = len(t.sources)
        sig.append(tuple(sorted(want.values())))
        if mode and mode != ["--quiet"]:
            cached = num(p.stdout, "Files cached") or 0
            done = num(p.stdout, "Files transpiled")
            cnt["cache_hits"] += cached
            if num(p.stdout, "Files found") != n or done is None or done + cached != n:
                fail(f"{n} files; reported found {num(p.stdout, 'Files found')}, transpiled {done}, cached {cached}")
            if not flags and (num(p.stdout, "Cache hits") != cached or num(p.stdout, "Cache misses") > done):
                fail(f"{cached} cached and {done} transpiled, but cache hits {num(p.stdout, 'Cache hits')}, misses {num(p.stdout, 'Cache misses')}")
            if mode == ["--verbose"]:
                names = re.findall(r"^✓ Cached: (.*)$", p.stdout, re.M) + re.findall(r"^✓ Transpiled: (.*) → ", p.stdout, re.M)
                if sorted(names) != sorted(t.sources):
                    fail(f"verbose names {sorted(names)}, the tree has {sorted(t.sources)}")
        if not flags and r.random() < 0.4:
            p = call([decy, "transpile-project", t.root, "-o", out, "--stats"])
            cnt["unchanged_reruns"] += 1
            if num(p.stdout, "Files cached") != n or num(p.stdout, "Files transpiled") != 0:
                fail(f"nothing changed, yet a second run transpiles {num(p.stdout, 'Files transpiled')} and takes {num(p.stdout, 'Files cached')} of {n} from the cache")
            if {k: v for k, v in snapshot(out).items() if v is not None} != got:
                fail("a second run without changes changed the output")
            q = call([decy, "cache-stats", t.root])
            if num(q.stdout, "Total files cached") is None or num(q.stdout, "Total files cached") < n:
                fail(f"cache-stats reports {num(q.stdout, 'Total files cached')} cached files, {n} are")
    shutil.rmtree(root, ignore_errors=True)
    return seed, bad, cnt, hash(tuple(sig)), trace


def run(ctx):
    decy = fw.build(["decy"])["decy"]
    budget = 100 if ctx.quick else 780
    cnt = collections.Counter()
    seen = set()
    for seed, bad, c, sig, trace in fw.pmap(history, ((decy, ctx.scratch, ctx.seed * 1000003 + i) for i in range(500 if ctx.quick else 20000)), budget):
        ctx.evaluations += 1
        cnt += c
        seen.add(sig)
        if len(ctx.samples) < 3:
            ctx.samples.append({"seed": seed, "history": trace})
        for what, files in bad:
            ctx.violation(what, files)
        if len(ctx.violations) > 20:
            break
    ctx.distinct = len(seen)
    ctx.cov.update(cnt)
    ctx.rule = "random project trees and histories of edits and runs, some killed or out of file space; non-trivial: distinct sequence of correct outputs"
    ctx.assumptions = ["sources do not change during one run", "no two sources of one directory differ only in their extension", "outputs of removed sources may stay"]
