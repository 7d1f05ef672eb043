#!/usr/bin/env python3
"""Checks that the toolchain the explorers need is there. Every check builds from /repo by itself."""
import os, subprocess, sys
env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
sys.exit(subprocess.run(["cargo", "--offline", "--version"], env=env).returncode)
