"""Which monitor builds decide which property."""

import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
from ccheck import c_driver, miri, sanitizer, two_builds, write_replay  # noqa: E402

NIGHTLY = "nightly"
TRIPLE = "x86_64-unknown-linux-gnu"
ASAN = {"label": "asan", "profile": "checked", "toolchain": NIGHTLY, "tdir": "asan", "triple": TRIPLE,
        "build_args": ["--target", TRIPLE], "on_abort": sanitizer,
        "env": {"RUSTFLAGS": "-Zsanitizer=address --cfg raw_alloc -Adangerous_implicit_autorefs",
                "ASAN_OPTIONS": "exitcode=99:detect_leaks=1:allocator_may_return_null=0"}}


TSAN = {"label": "tsan", "bin": "threads", "profile": "release", "toolchain": NIGHTLY, "tdir": "tsan", "triple": TRIPLE, "scale": 0.25,
        "build_args": ["--target", TRIPLE, "-Zbuild-std"], "on_abort": sanitizer,
        "env": {"RUSTFLAGS": "-Zsanitizer=thread --cfg tsan -Adangerous_implicit_autorefs", "TSAN_OPTIONS": "exitcode=99:halt_on_error=1"}}
UNCHECKED = {"bin": "threads", "tdir": "unchecked", "build_args": ["--features", "unchecked"]}


def std(binary, release=0.5):
    """same workload with the library's own assertions on, then as shipped (release)"""
    runs = [{"label": "checked", "bin": binary, "profile": "checked"}]
    if release:
        runs.append({"label": "release", "bin": binary, "profile": "release", "tiers": ("thorough",)})
    return runs

UI = os.path.join(os.path.dirname(os.path.abspath(__file__)), "ui_harness")

RUNS = {
    "C01": std("boolean"),
    "C02": std("boolean"),
    "C03": std("boolean"),
    "C04": std("offset"),
    "C05": std("offset"),
    "C06": std("offset"),
    "C07": std("offset"),
    "C08": std("offset"),
    "C09": std("intersect"),
    "C10": std("intersect"),
    "C11": std("intersect"),
    "C12": std("measure"),
    "C13": std("measure"),
    "C14": std("measure"),
    "C15": std("measure"),
    "C16": std("measure"),
    "C17": std("edit"),
    "C18": std("edit"),
    "C19": std("edit"),
    "C20": std("edit"),
    "C21": std("ffi") + [{"label": "c-abi", "kind": "py", "func": c_driver, "n": {"quick": 20000, "thorough": 2000000}}],
    "C22": std("ffi") + [
        dict(ASAN, bin="ffi", scale=0.35),
        {"label": "valgrind", "kind": "py", "func": c_driver, "n": {"quick": 400, "thorough": 20000},
         "prefix": ["valgrind", "-q", "--error-exitcode=97", "--leak-check=full", "--errors-for-leak-kinds=definite,possible,indirect,reachable"]},
        {"label": "miri", "bin": "ffi", "kind": "py", "func": miri, "tiers": ("thorough",), "scale": {"thorough": 0.002, "quick": 0.0003}},
    ],
    "C23": [{"label": "checked", "bin": "ffi", "profile": "checked"}, {"label": "release", "bin": "ffi", "profile": "release"}],
    "C24": std("misc"),
    "C25": [{"label": "overflow", "bin": "misc", "profile": "overflow"}],
    "C26": [{"label": "release", "bin": "threads", "profile": "release", "compile_verdict": r"`[^`\n]*` cannot be (sent|shared) between threads safely"}, TSAN,
            {"label": "miri", "bin": "threads", "kind": "py", "func": miri, "tiers": ("thorough",), "scale": {"thorough": 0.004, "quick": 0.0005}, "flags": " -Zmiri-preemption-rate=0.1"}],
    "C28": [{"label": "overflow", "bin": "single", "profile": "overflow"}],
    "C29": [{"label": "two-builds", "bin": "threads", "kind": "py", "func": two_builds, "feature": "unchecked", "n": {"quick": 8000, "thorough": 800000}},
            dict(UNCHECKED, label="ub-checks", profile="checked"),
            dict(ASAN, bin="threads", tdir="asan-unchecked", build_args=["--target", TRIPLE, "--features", "unchecked"]),
            {"label": "miri", "bin": "threads", "kind": "py", "func": miri, "tiers": ("thorough",), "build_args": ["--features", "unchecked"], "scale": {"thorough": 0.01, "quick": 0.001}}],
    "C27": std("edit"),
    "C30": std("measure"),
    "C31": std("measure"),
    "C32": [{"label": "checked", "bin": "ui", "profile": "checked", "crate": UI}],
    "C33": [{"label": "release", "bin": "ui", "profile": "release", "crate": UI}],
}
LEVEL_NOTES = {}
