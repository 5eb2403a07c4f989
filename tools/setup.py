#!/usr/bin/env python3
"""nothing is kept between runs: only checks that the tools the checks need are here"""
import os, subprocess, sys
e = dict(os.environ, CARGO_NET_OFFLINE="true")
for c in (["cargo", "--version"], ["cargo", "kani", "--version"]):
    if subprocess.run(c, env=e).returncode: sys.exit(1)
