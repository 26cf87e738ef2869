"""Helper to write a planted bug: seed(id, property, edits, needs, breaks, demo).

edits is a list of (file, old, new); demo is the body of an in-package Go test
file (package rdns unless pkg is given).
"""
import json, pathlib, shutil, subprocess

SEEDED = pathlib.Path(__file__).resolve().parent.parent / "seeded"

DEMO = """#!/bin/bash
# Runs demo_test.go as a test of the package; exit 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
echo "{\\"Replace\\": {\\"$PWD/%(dir)szz_demo_test.go\\": \\"$here/demo_test.go\\"}}" > "$scratch/overlay.json"
TMPDIR=$scratch go test -vet=off -overlay "$scratch/overlay.json" -run '^TestDemo$' -count=1 -timeout 200s ./%(dir)s
"""


def seed(id, prop, edits, needs, breaks, demo, pkg="rdns", dir=""):
    wt = pathlib.Path("/tmp/mkseed")
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", str(wt)], check=True)
    for f, old, new in edits:
        p = wt / f
        s = p.read_text()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        p.write_text(s.replace(old, new))
        subprocess.run(["gofmt", "-l", "-w", str(p)], check=True)
    diff = subprocess.run(["git", "-C", str(wt), "diff"], check=True, capture_output=True, text=True).stdout
    assert diff
    d = SEEDED / id
    d.mkdir(parents=True, exist_ok=True)
    (d / "patch.diff").write_text(diff)
    (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    (d / "demo.sh").write_text(DEMO % {"dir": dir})
    (d / "demo_test.go").write_text(demo if demo.startswith("package") else f"package {pkg}\n\n" + demo)
    subprocess.run(["gofmt", "-w", str(d / "demo_test.go")], check=True)
    shutil.rmtree(wt, ignore_errors=True)
