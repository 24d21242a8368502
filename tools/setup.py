#!/usr/bin/env python3
"""Builds the symbolic engine (every check also does this when needed)."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(V, "work", "t_engine"))
sys.exit(subprocess.call(["cargo", "build", "--release", "--offline"], cwd=os.path.join(V, "engine"), env=env))
