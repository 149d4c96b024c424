#!/usr/bin/env python3
"""Makes sure that the toolchains are there; the checks build what they need from /repo themselves."""
import os, subprocess, sys
env = dict(os.environ, PATH="/root/.cargo/bin:/usr/local/cargo/bin:" + os.environ["PATH"])
for c in (["cargo", "+stable", "--version"], ["cargo", "+nightly", "--version"], ["cargo", "+nightly", "miri", "--version"], ["/opt/vp/venv/bin/python", "-c", "import numpy; print('numpy', numpy.__version__)"], ["rsync", "--version"]):
    p = subprocess.run(c, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(" ".join(c), "->", p.stdout.splitlines()[0] if p.stdout else p.returncode)
    if p.returncode:
        sys.exit(1)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in ("harness/Cargo.lock", "locks/repo.Cargo.lock", "properties.jsonl"):
    if not os.path.exists(os.path.join(V, f)):
        sys.exit(f"{f} is missing")
