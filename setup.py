#!/usr/bin/env python3
"""Warm the build cache (checks also work without it)."""
import subprocess, run, sys, tempfile, shutil
d = tempfile.mkdtemp(prefix="verif-setup-")
try:
    run.build(d, False)
    run.build(d, True)
    run.build_daemon(d)
finally:
    shutil.rmtree(d, ignore_errors=True)
