#!/usr/bin/env python3
"""Checks that the verifier builds. Nothing is kept: every check builds what it needs."""
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tmp = tempfile.mkdtemp(prefix="verif-setup-")
try:
    shutil.copytree(os.path.join(ROOT, "engine"), os.path.join(tmp, "engine"))
    env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", CGO_ENABLED="0", HOME="/root")
    sys.exit(subprocess.call(["go", "build", "-o", os.path.join(tmp, "gov"), "."], cwd=os.path.join(tmp, "engine"), env=env))
finally:
    shutil.rmtree(tmp, ignore_errors=True)
