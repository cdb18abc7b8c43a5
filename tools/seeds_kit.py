"""Planting bugs whose demonstration needs the crates that only build against stand-in dependencies: the demonstration
   carries the stand-ins (kit.tgz) along and builds the crates of /repo against them in a scratch directory."""
import io, gzip, os, tarfile
from seed import plant as plant0, ROOT
CRATES = {"bls": ["bls-crypto"], "gadgets": ["bls-crypto", "bls-gadgets"], "epoch": ["bls-crypto", "bls-gadgets", "epoch-snark"], "sys": ["bls-crypto", "bls-gadgets", "epoch-snark", "bls-snark-sys"]}
TOML = """[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
%s
ark-bls12-377 = { path = "../kit/shim/ark-bls12-377" }
ark-ec = { path = "../kit/shim/ark-ec" }
ark-ff = { path = "../kit/shim/ark-ff" }
ark-serialize = { path = "../kit/shim/ark-serialize" }
%s
[workspace]
[profile.dev]
opt-level = 3
debug = false
codegen-units = 16
"""
R1CS = """ark-relations = { path = "../kit/shim/ark-relations" }
ark-r1cs-std = { path = "../kit/shim/ark-r1cs-std" }
ark-groth16 = { path = "../kit/shim/ark-groth16" }
ark-bw6-761 = { path = "../kit/shim/ark-bw6-761" }
rand = "0.7"
"""
DEMO = """#!/bin/bash
# builds /repo's crates against the stand-in dependencies of kit.tgz in a scratch directory and runs the demonstration: 0 as specified, 1 otherwise
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/demo/src" "$w/kit"
tar xzf "$here/kit.tgz" -C "$w/kit" || exit 3
cp "$here"/*.rs "$w/demo/src/" || exit 3
cp "$here/demo.toml" "$w/demo/Cargo.toml" || exit 3
cd "$w/demo" || exit 3
RUSTFLAGS="@F@" CARGO_TARGET_DIR="$w/target" cargo build --offline -q || { echo "demonstration does not build"; exit 3; }
timeout 200 "$w"/target/debug/demo
"""
def kit():
    out = io.BytesIO()
    with gzip.GzipFile(fileobj=out, mode="wb", mtime=0, compresslevel=9) as g, tarfile.open(fileobj=g, mode="w", format=tarfile.USTAR_FORMAT) as t:
        for top in ["shim", "mirror"]:
            for d, ds, fs in sorted(os.walk(os.path.join(ROOT, top))):
                ds[:] = sorted(x for x in ds if x != "target")
                for f in sorted(fs):
                    if f == "Cargo.lock": continue
                    p = os.path.join(d, f)
                    i = tarfile.TarInfo(os.path.relpath(p, ROOT))
                    data = open(p, "rb").read()
                    i.size, i.mode = len(data), 0o644
                    t.addfile(i, io.BytesIO(data))
    return out.getvalue()
KIT = None
def plant(id, prop, edits, needs, breaks, main_rs, crate="bls", hooks=False):
    global KIT
    if KIT is None: KIT = kit()
    deps = "\n".join('%s = { path = "../kit/mirror/%s"%s }' % (c, c, ', features = ["compat"]' if c != "bls-snark-sys" else "") for c in CRATES[crate])
    plant0(id, prop, edits, needs, breaks, main_rs, TOML % (deps, "rand = \"0.7\"\n" if crate == "bls" else R1CS))
    d = os.path.join(ROOT, "seeded", id)
    open(os.path.join(d, "kit.tgz"), "wb").write(KIT)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@F@", "--cfg celo_bls_verif" if hooks else ""))
