#!/usr/bin/env python3
"""tryseed.py ID...: confirm planted bugs in a scratch copy of /repo.

The patch applies, builds, passes the stable tests, and the demonstration
passes without it and fails with it.  With --check, also run the property's
quick check against the patched /repo itself and restore it afterwards.
"""
import json, os, pathlib, shutil, subprocess, sys

SEEDED = pathlib.Path(__file__).resolve().parent.parent / "seeded"


def sh(cmd, cwd, timeout=900):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, capture_output=True, text=True, timeout=timeout)


def stable():
    # TestDoTListenerPadding needs the network to be unreachable rather than silent.
    return {t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if not t.endswith("/TestDoTListenerPadding")}


def tests(cwd):
    r = sh("go test -json -vet=off -count=1 -timeout 10m ./...", cwd)
    ok = set()
    for line in r.stdout.splitlines():
        try:
            e = json.loads(line)
        except ValueError:
            continue
        if e.get("Action") == "pass" and e.get("Test"):
            ok.add(e["Package"] + "/" + e["Test"])
    return stable() - ok


def main():
    args = sys.argv[1:]
    check = "--check" in args
    notest = "--notest" in args
    ids = [a for a in args if not a.startswith("--")] or sorted(p.name for p in SEEDED.iterdir())
    for i in ids:
        d = SEEDED / i
        meta = json.load(open(d / "meta.json"))
        msgs = []
        if not check or not notest:
            wt = pathlib.Path("/tmp/seedtry-" + i)
            shutil.rmtree(wt, ignore_errors=True)
            subprocess.run(["cp", "-a", "/repo", str(wt)], check=True)
            try:
                if not notest:
                    r = sh(f"bash {d}/demo.sh", wt)
                    msgs.append("demo clean: " + ("ok" if r.returncode == 0 else "FAILS\n" + r.stdout[-1500:] + r.stderr[-1500:]))
                r = sh(f"git apply {d}/patch.diff && go build ./...", wt)
                if r.returncode:
                    msgs.append("apply/build FAILS " + r.stderr[-1500:])
                else:
                    r = sh(f"bash {d}/demo.sh", wt)
                    msgs.append("demo patched: " + ("fails as it should" if r.returncode else "PASSES"))
                    if not notest:
                        bad = tests(wt)
                        if bad:
                            bad &= tests(wt)
                        msgs.append("tests: " + ("ok" if not bad else "BROKEN " + " ".join(sorted(bad)[:5])))
            finally:
                shutil.rmtree(wt, ignore_errors=True)
        if check:
            assert not sh("git status --porcelain", "/repo").stdout.strip(), "/repo is not clean"
            try:
                subprocess.run(["git", "-C", "/repo", "apply", str(d / "patch.diff")], check=True)
                r = sh(f"python3 check.py {meta['property']} quick", SEEDED.parent)
                caught = r.returncode == 1 and f"VIOLATION property={meta['property']} " in r.stdout
                msgs.append("check %s: %s" % (meta["property"], "caught" if caught else f"MISSED (exit {r.returncode}) " + r.stdout[-300:] + r.stderr[-300:]))
            finally:
                subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
        print(i + ": " + "; ".join(msgs), flush=True)


main()
