#!/usr/bin/env python3
"""Fills the Go build cache, so that the first check does not have to."""
import subprocess
import sys

import check

sys.exit(subprocess.run(["go", "build", "./kit/..."], cwd=check.GODIR, env=check.go_env()).returncode)
