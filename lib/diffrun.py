"""Differential execution: C program (clang + UBSan) against the translation (rustc)."""
import os, re, shutil, subprocess, tempfile

ENV = {k: v for k, v in os.environ.items() if k not in ("RUST_BACKTRACE", "RUSTFLAGS", "RUSTC_WRAPPER")}
ENV["RUST_BACKTRACE"] = "0"
UBSAN = "-fsanitize=undefined,unsigned-integer-overflow,implicit-conversion,float-cast-overflow"
EDITION = "2021"


def sh(cmd, timeout, cwd=None, inp=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, input=inp, capture_output=True, timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return "timeout", b"", b""


def c_reference(d, src, extra=(), san=UBSAN):
    """Returns ('ok', stdout, code) or ('skip', reason): the C program must be valid, terminate and
    execute nothing undefined."""
    c = os.path.join(d, "p.c")
    with open(c, "w") as f:
        f.write(src)
    rc, o, e = sh(["clang", "-O0", "-w", "-g0", san, "-fsanitize-trap=all", "-o", d + "/c", c, "-lm", *extra], 60)
    if rc != 0:
        return ("skip", "clang: " + e.decode(errors="replace")[:400])
    rc, o, e = sh([d + "/c"], 5)
    if rc == "timeout":
        return ("skip", "c timeout")
    if rc < 0:
        return ("skip", f"c signal {rc}")
    if len(o) > 200000:
        return ("skip", "output too long")
    return ("ok", o, rc)


def translate(decy, d, name="p.c", timeout=60):
    rc, o, e = sh([decy, "transpile", os.path.join(d, name)], timeout)
    return rc, o, e


def rustc(d, rs="p.rs", out="r", extra=(), timeout=120):
    return sh(["rustc", "+stable", "--edition", EDITION, "--cap-lints", "allow", "-C", "debuginfo=0", *extra,
               "-o", os.path.join(d, out), os.path.join(d, rs)], timeout)


def diff_program(decy, src, keep=None, scratch=None, rust_extra=(), san=UBSAN):
    """One program through the whole chain.
    Result: (verdict, info, rust) with verdict in
      ok | skip | decyfail | rustfail | diff | hang."""
    d = tempfile.mkdtemp(dir=scratch)
    try:
        ref = c_reference(d, src, san=san)
        if ref[0] == "skip":
            return "skip", ref[1], ""
        _, cout, ccode = ref
        rc, o, e = translate(decy, d)
        if rc == "timeout":
            return "hang", "decy transpile did not finish in 60 s", ""
        if rc != 0:
            return "decyfail", f"decy exit {rc}: " + e.decode(errors="replace")[-600:], ""
        rust = o.decode(errors="replace")
        with open(d + "/p.rs", "w") as f:
            f.write(rust)
        rc, o, e = rustc(d, extra=rust_extra)
        if rc == "timeout":
            return "skip", "rustc timeout", rust
        if rc != 0:
            return "rustfail", e.decode(errors="replace")[:3000], rust
        rc, o, e = sh([d + "/r"], 20)
        if rc == "timeout":
            return "hang", "translated program did not finish in 20 s", rust
        if (o, rc) != (cout, ccode):
            return "diff", first_diff(cout, o, ccode, rc) + "\nstderr: " + e.decode(errors="replace")[-400:], rust
        return "ok", cout.decode(errors="replace"), rust
    finally:
        shutil.rmtree(d, ignore_errors=True)


def first_diff(a, b, ca, cb):
    la, lb = a.decode(errors="replace").split("\n"), b.decode(errors="replace").split("\n")
    for i in range(max(len(la), len(lb))):
        x = la[i] if i < len(la) else "<end>"
        y = lb[i] if i < len(lb) else "<end>"
        if x != y:
            return f"line {i + 1}: C printed {x!r}, Rust printed {y!r} (exit C {ca}, Rust {cb})"
    return f"exit status: C {ca}, Rust {cb}"
