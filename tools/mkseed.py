#!/usr/bin/env python3
"""mkseed.py ID PROPERTY HARNESS CRATES: makes /verif/seeded/ID from /tmp/seed/{patch.diff,demo.rs,meta.json}
(the demonstration carries its own copy of the shim, the workspace generator and the mock runtime)"""
import json, pathlib, shutil, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
id, prop, harness, crates = sys.argv[1:5]
src = pathlib.Path(sys.argv[5] if len(sys.argv) > 5 else "/tmp/seed")
d = ROOT / "seeded" / id
if d.exists(): shutil.rmtree(d)
(d / "kit/tools").mkdir(parents=True); (d / "kit/harness").mkdir()
shutil.copytree(ROOT / "shim", d / "kit/shim", ignore=shutil.ignore_patterns("target", "Cargo.lock"))
shutil.copy(ROOT / "tools/ws.py", d / "kit/tools/ws.py")
shutil.copy(ROOT / f"harness/{harness}.rs", d / f"kit/harness/{harness}.rs")
shutil.copy(src / "demo.rs", d / "kit/tools/replay.rs")
shutil.copy(src / "patch.diff", d / "patch.diff")
m = json.loads((src / "meta.json").read_text()); m["property"] = prop
(d / "meta.json").write_text(json.dumps(m, indent=1) + "\n")
(d / "demo.sh").write_text(f'''#!/bin/bash
# compiles the pallet of the current directory's repository against the bundled mock runtime and runs kit/tools/replay.rs
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
export VERIF_REPO=$PWD CARGO_NET_OFFLINE=true RUSTFLAGS="--cap-lints allow"
unset MF_N MF_ND MF_PROP CARGO_TARGET_DIR; export MF_CAP=32
python3 -B "$D/kit/tools/ws.py" "$W" {harness} {crates} || exit 3
cd "$W" && cargo run --offline -q -p r
''')
