"""Which builds (VARIANTS) and runs (PARTS) decide each property."""
REL = ["cargo", "build", "--release", "--offline", "--locked", "-q"]
VARIANTS = {
    "hash": {"dir": "harness/hash", "target": "main", "out": "release", "bin": "hash-harness", "cmd": REL},
    "hash-nocompat": {"dir": "harness/hash", "target": "nocompat", "out": "release", "bin": "hash-harness", "cmd": REL + ["--no-default-features"]},
    "keys": {"dir": "harness/keys", "target": "main", "out": "release", "bin": "keys-harness", "cmd": REL},
    "utils": {"dir": "harness/utils", "target": "main", "out": "release", "bin": "utils-harness", "cmd": REL, "fallback": "utils-lib"},
    "utils-lib": {"dir": "harness/utils", "target": "hooked", "out": "release", "bin": "utils-harness", "cmd": REL + ["--features", "lib"], "env": {"RUSTFLAGS": "--cfg celo_bls_verif"}, "spare": True},
}
HOOK = {"RUSTFLAGS": "--cfg celo_bls_verif"}
VARIANTS.update({
    "gadgets": {"dir": "harness/gadgets", "target": "hooked", "out": "release", "bin": "gadgets-harness", "cmd": REL, "env": HOOK},
    "gadgets-nocompat": {"dir": "harness/gadgets", "target": "hooked-nocompat", "out": "release", "bin": "gadgets-harness", "cmd": REL + ["--no-default-features"], "env": HOOK},
})
PARTS = {
    "H01": [("main", "hash", ["H01"])],
    "H02": [("main", "hash", ["H02"])],
    "H03": [("main", "hash", ["H03"])],
    "H04": [("compat", "hash", ["H04"]), ("plain", "hash-nocompat", ["H04"])],
    "H05": [("compat", "hash", ["H05"]), ("plain", "hash-nocompat", ["H05"])],
    "U01": [("main", "utils", ["U01"])],
}
PARTS.update({"K0%d" % i: [("main", "keys", ["K0%d" % i])] for i in range(1, 9)})
PARTS.update({"C0%d" % i: [("main", "gadgets", ["C0%d" % i])] for i in (1, 2, 4)})
PARTS["C03"] = [("compat", "gadgets", ["C03"]), ("plain", "gadgets-nocompat", ["C03"])]
VARIANTS["epoch"] = {"dir": "harness/epoch", "target": "hooked", "out": "release", "bin": "epoch-harness", "cmd": REL, "env": HOOK}
VARIANTS["epoch-nocompat"] = {"dir": "harness/epoch", "target": "hooked-nocompat", "out": "release", "bin": "epoch-harness", "cmd": REL + ["--no-default-features"], "env": HOOK}
PARTS.update({i: [("main", "epoch", [i])] for i in ("E01", "E02", "E03", "C06", "C07", "C08", "C09", "C10", "C11")})
PARTS["C05"] = [("compat", "epoch", ["C05"]), ("plain", "epoch-nocompat", ["C05"])]

# the C interface: plain, under the monitoring allocator, AddressSanitizer, ThreadSanitizer, Miri
NIGHTLY = ["cargo", "+nightly"]
HOST = ["--target", "x86_64-unknown-linux-gnu"]
VARIANTS["ffi"] = {"dir": "harness/ffi", "target": "main", "out": "release", "bin": "ffi-harness", "cmd": REL}
VARIANTS["ffi-watch"] = {"dir": "harness/ffi", "target": "watch", "out": "release", "bin": "ffi-harness", "cmd": REL + ["--features", "watch"]}
VARIANTS["ffi-asan"] = {"dir": "harness/ffi", "target": "asan", "out": "x86_64-unknown-linux-gnu/release", "bin": "ffi-harness", "cmd": NIGHTLY + REL[1:] + HOST,
    "env": {"RUSTFLAGS": "-Zsanitizer=address"}, "run_env": {"ASAN_OPTIONS": "detect_leaks=0:exitcode=77", "VERIF_SANITIZER": "1"}, "sanitizer_rc": 77}
VARIANTS["ffi-tsan"] = {"dir": "harness/ffi", "target": "tsan", "out": "x86_64-unknown-linux-gnu/release", "bin": "ffi-harness", "cmd": NIGHTLY + REL[1:] + ["-Zbuild-std"] + HOST,
    "env": {"RUSTFLAGS": "-Zsanitizer=thread"}, "run_env": {"TSAN_OPTIONS": "exitcode=66", "VERIF_SANITIZER": "1"}, "sanitizer_rc": 66}
MIRI = NIGHTLY + ["miri", "run", "--offline", "--locked", "-q", "--", "F02-miri"]
VARIANTS["ffi-miri"] = {"dir": "harness/ffi", "target": "miri", "out": "miri/x86_64-unknown-linux-gnu/debug", "bin": "ffi-harness", "cmd": MIRI + ["0"], "runner": MIRI,
    "env": {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows"}}
VARIANTS["so"] = {"dir": "mirror/bls-snark-sys", "target": "main", "out": "release", "bin": "libbls_snark_sys.so", "cmd": ["cargo", "rustc", "--release", "--offline", "--locked", "-q", "--lib", "--crate-type", "cdylib"]}
VARIANTS["ffi-c"] = dict(VARIANTS["ffi"], cmd=REL + ["--no-default-features"], also={"VERIF_SO": "so"})
for v in ("ffi", "ffi-asan"): VARIANTS[v + "-convert"] = dict(VARIANTS[v], cmd=VARIANTS[v]["cmd"] + ["--features", "convert"], fallback=v)
PARTS["F06"] = [("main", "ffi-c", ["F06"])]
PARTS["F01"] = [("main", "ffi", ["F01"])]
PARTS["F02"] = [("allocator", "ffi-watch", ["F02"]), ("asan", "ffi-asan", ["F02"]), ("miri", "ffi-miri", ["2"])]
PARTS["F03"] = [("main", "ffi", ["F03"]), ("asan", "ffi-asan", ["F03"])]
PARTS["F04"] = [("main", "ffi", ["F04"]), ("tsan", "ffi-tsan", ["F04"])]
PARTS["F05"] = [("main", "ffi-convert", ["F05"]), ("asan", "ffi-asan-convert", ["F05"])]
PARTS["K08"] = [("library", "keys", ["K08"]), ("interface", "ffi", ["K08"])]
PARTS["K09"] = [("main", "keys", ["K09"])]
PARTS["K10"] = [("allocator", "ffi-watch", ["K10"])]
