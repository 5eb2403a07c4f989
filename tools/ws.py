#!/usr/bin/env python3
"""Creates a cargo workspace (outside /repo) in which the *unmodified* sources of /repo's crates are
compiled against the mini-FRAME shim: each generated Cargo.toml only sets `[lib] path` to the real
file in /repo."""
import os, sys, pathlib, json
ROOT = pathlib.Path(__file__).resolve().parent.parent
SHIM = pathlib.Path(os.environ.get("VERIF_SHIM", ROOT / "shim"))
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))

FACADES = {  # crate name -> mf module
    "parity-scale-codec": "codec", "scale-info": "scale_info", "sp-std": "sp_std", "sp-core": "sp_core",
    "sp-runtime": "sp_runtime", "sp-io": "sp_io", "sp-api": "sp_api", "frame-support": "frame_support",
    "frame-system": "frame_system", "enumflags2": "enumflags2", "numtoa": "numtoa", "log": "log", "serde": "serde",
    "serde_json": "serde_json", "impl-serde": "impl_serde", "smallvec": "smallvec", "sp-weights": "sp_weights",
    "pallet-transaction-payment": "pallet_transaction_payment", "cid": "cid", "multibase": "multibase", "hex": "hex",
    "twox-hash": "twox_hash",
    "pallet-balances": "pallet_balances", "oorandom": "text::oorandom", "unicode-normalization": "text::unicode_normalization",
}
SUBSTRATE = [f for f in FACADES]
# crate -> (lib path relative to REPO, extra deps)
REAL = {
    "common-primitives": ("common/primitives/src/lib.rs", []),
    "pallet-capacity": ("pallets/capacity/src/lib.rs", ["common-primitives"]),
    "pallet-msa": ("pallets/msa/src/lib.rs", ["common-primitives"]),
    "pallet-messages": ("pallets/messages/src/lib.rs", ["common-primitives"]),
    "pallet-schemas": ("pallets/schemas/src/lib.rs", ["common-primitives"]),
    "pallet-time-release": ("pallets/time-release/src/lib.rs", []),
    "pallet-stateful-storage": ("pallets/stateful-storage/src/lib.rs", ["common-primitives"]),
    "pallet-handles": ("pallets/handles/src/lib.rs", ["common-primitives", "handles-utils"]),
    "pallet-frequency-tx-payment": ("pallets/frequency-tx-payment/src/lib.rs", ["common-primitives", "pallet-capacity", "pallet-msa"]),
    "pallet-passkey": ("pallets/passkey/src/lib.rs", ["common-primitives", "common-runtime"]),
    "handles-utils": ("pallets/handles/src/handles-utils/src/lib.rs", []),
    "handles-utils-real": ("pallets/handles/src/handles-utils/src/lib.rs", []),
    "common-runtime": (None, ["common-primitives"]),
}
OVERRIDE = {}

def closure(names):
    out = []
    def go(n):
        for d in REAL[n][1]: go(d)
        if n not in out: out.append(n)
    for n in names: go(n)
    return out

def write(p, s):
    p = pathlib.Path(p); p.parent.mkdir(parents=True, exist_ok=True)
    if p.exists() and p.read_text() == s: return
    p.write_text(s)

import re, shutil
PRE = "use ::mf::vecs::MfSlice as _; "
def transform(t):
    """the only edits made to the real text: `.to_vec()` / `.concat()` on slices return the vector
    type of the (shim) `sp_std` instead of the hard-wired `alloc` one, `alloc` itself is the shim's, and private modules are made public (so that contracts can name their functions)"""
    n = re.sub(r"\.(to_vec|concat)\(\)", r".mf_\1()", t)
    n = re.sub(r"^mod (\w+);", r"pub mod \1;", n, flags=re.M)
    n = n.replace('include!(concat!(env!("OUT_DIR"), "/confusables.rs"));', "use ::mf::text::confusables::CONFUSABLES;")
    n = re.sub(r"^(\s*)extern crate alloc;", r"\1use ::mf::alloc;", n, flags=re.M)
    if n == t: return t
    lines = n.split("\n"); i = 0; blk = att = False
    while i < len(lines):
        l = lines[i].strip()
        if blk:
            blk = "*/" not in l
        elif att: att = not l.startswith(")]")
        elif l.startswith("#![") and "]" not in l[3:]: att = True
        elif l.startswith("/*"): blk = "*/" not in l
        elif not (l == "" or l.startswith("//!") or l.startswith("#![") or (l.startswith("//") and not l.startswith("///"))): break
        i += 1
    lines[i] = PRE + lines[i]
    return "\n".join(lines)

def copytree(d, lib):
    """a copy, made on every run, of every source file of the crate; only `migration/` (one-off
    storage upgrades, not under contract) is replaced by empty modules"""
    src = lib.parent
    dst = d / "real" / "src"
    keep = set()
    for r, ds, fs in os.walk(src):
        rel = pathlib.Path(r).relative_to(src)
        if rel.parts and rel.parts[0] in ("runtime-api", "rpc", "handles-utils"): continue
        for f in fs:
            t = dst / rel / f
            keep.add(t)
            write(t, "" if "migration" in rel.parts else transform((pathlib.Path(r) / f).read_text()) if f.endswith(".rs") else (pathlib.Path(r) / f).read_text())
    if dst.exists():
        for r, ds, fs in os.walk(dst):
            for f in fs:
                if pathlib.Path(r) / f not in keep: (pathlib.Path(r) / f).unlink()
    for f in [*src.parent.glob("*.md"), *src.parent.glob("constants.rs")]: write(d / "real" / f.name, f.read_text())
    return str(dst / "lib.rs")

def make(work, harness, real, harness_src=None, overrides=None, extra_deps=None, features=None):
    """harness: name of the harness crate; harness_src: path of its lib.rs"""
    work = pathlib.Path(work); overrides = {"handles-utils": str(SHIM / "handles-utils/src/lib.rs"), **(overrides or {})}
    crates = closure(real)
    members = ["h"]
    for c, m in FACADES.items():
        d = work / "f" / c
        write(d / "Cargo.toml", f'[package]\nname = "{c}"\nversion = "0.0.0"\nedition = "2021"\n[lib]\npath = "src/lib.rs"\ndoctest = false\n[features]\nderive = []\nalloc = []\n[dependencies]\nmf = {{ path = "{SHIM}/mf" }}\n')
        write(d / "src/lib.rs", f"#![allow(unused_imports)]\npub use mf::{m}::*;\n")
    for c in crates:
        rel, deps = REAL[c]
        d = work / "c" / c
        path = overrides.get(c) or copytree(d, REPO / rel)
        t = f'[package]\nname = "{c}"\nversion = "0.0.0"\nedition = "2021"\nbuild = false\n[lib]\npath = "{path}"\ndoctest = false\n[features]\ndefault = []\nstd = []\nruntime-benchmarks = []\ntry-runtime = []\nfrequency = []\nfrequency-testnet = []\nfrequency-no-relay = []\nfrequency-local = []\ntest = []\n[dependencies]\nmf = {{ path = "{SHIM}/mf" }}\n'
        for f in FACADES: t += f'{f} = {{ path = "../../f/{f}" }}\n'
        for x in deps: t += f'{x} = {{ path = "../{x}" }}\n'
        for x, v in ((extra_deps or {}).get(c, {})).items(): t += f"{x} = {v}\n"
        write(d / "Cargo.toml", t)
    hs = harness_src or str(ROOT / "harness" / f"{harness}.rs")
    t = f'[package]\nname = "h"\nversion = "0.0.0"\nedition = "2021"\n[lib]\npath = "{hs}"\ndoctest = false\n[features]\n'
    for f in (features or []): t += f"{f} = []\n"
    t += f'[dependencies]\nmf = {{ path = "{SHIM}/mf" }}\n'
    for c in crates: t += f'{c} = {{ path = "../c/{c}" }}\n'
    for x, v in ((extra_deps or {}).get("h", {})).items(): t += f"{x} = {v}\n"
    t += '[lints.rust]\nunexpected_cfgs = { level = "allow" }\n'
    write(work / "h/Cargo.toml", t)
    RDEPS = "".join(f'{c} = {{ path = "../c/{c}" }}\n' for c in crates)
    write(work / "r/Cargo.toml", f'[package]\nname = "r"\nversion = "0.0.0"\nedition = "2021"\n[[bin]]\nname = "r"\npath = "{ROOT}/tools/replay.rs"\n[dependencies]\nh = {{ path = "../h" }}\n{RDEPS}mf = {{ path = "{SHIM}/mf" }}\n')
    write(work / "Cargo.toml", '[workspace]\nresolver = "2"\nmembers = ["h", "r"]\n[profile.dev]\ndebug = false\nincremental = false\n[workspace.lints.rust]\n')
    return work

if __name__ == "__main__":
    make(sys.argv[1], sys.argv[2], sys.argv[3].split(","))
