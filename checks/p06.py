"""P06: the parser's use of libclang: nothing lost, nothing used after it is given back, on any text and thread."""
import os, subprocess
import fw, moncheck


def build():
    b = fw.build(["ffi"], crate="asan", toolchain="+nightly", env={"RUSTFLAGS": "-Zsanitizer=address"}, extra=["--target", "x86_64-unknown-linux-gnu"])["ffi"]
    so = os.path.join(os.path.dirname(b), "clangmon.so")
    inc = subprocess.run(["llvm-config-18", "--includedir"], capture_output=True, text=True).stdout.strip() or "/usr/lib/llvm-18/include"
    subprocess.run(["gcc", "-O1", "-g", "-fPIC", "-shared", "-I", inc, "-o", so, fw.ROOT + "/asan/clangmon.c", "-ldl", "-lpthread"], check=True)
    return b, so


def run(ctx):
    b, so = build()
    env = {"LD_PRELOAD": so, "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=1:exitcode=99:detect_odr_violation=0:verify_asan_link_order=0:allocator_may_return_null=1",
           "LSAN_OPTIONS": "exitcode=99:report_objects=0"}
    moncheck.run(ctx, "ffi", 70, 900, binary=b, env=env, args=(fw.ROOT + "/corpus",))
    moncheck.need(ctx, "parsed", "rejected", "concurrent_parses", "unit_pairs", "token_array_pairs", "diagnostic_pairs", "watched_uses")
    ctx.rule = "texts read by the sanitized parser while the libclang interface is watched; non-trivial: distinct text"
    ctx.assumptions = ["libclang itself is not instrumented; its allocations are", "strings libclang keeps ownership of need no release"]
