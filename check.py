#!/usr/bin/env python3
"""Runs the generated checks of one property against /repo's working tree.

    check.py ID quick|thorough     run the check, write evidence/ID.json
    check.py ID replay FILE        run one saved case again
    check.py list                  the properties that have a check

Exit 0: the property held on everything explored. Exit 1, with a line
"VIOLATION property=ID replay=PATH": it did not. Exit 2: no answer.
"""
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
GODIR = os.path.join(VERIF, "go")
EVIDENCE = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "KNOWN-FINDINGS.txt")


class NoAnswer(Exception):
    pass


def registry():
    with open(os.path.join(VERIF, "checks.json")) as f:
        return json.load(f)


def go_env():
    env = dict(os.environ)
    env.update({
        "HOME": "/root", "GOTOOLCHAIN": "local", "GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOWORK": "off",
        "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build",
        "GOSUMDB": "off", "GOTELEMETRY": "off",
    })
    return env


def build(prop, scratch, tier):
    env = go_env()
    cmds = [["go", "test", "-c", "-vet=off", "-o", os.path.join(scratch, "check.test"), "./props/" + prop["pkg"]]]
    if tier == "thorough" and prop.get("race"):
        cmds[0][2:2] = ["-race"]
    if prop.get("binary"):
        cmds.append(["go", "build", "-o", os.path.join(scratch, "routedns"), "github.com/folbricht/routedns/cmd/routedns"])
    for c in cmds:
        p = subprocess.run(c, cwd=GODIR, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise NoAnswer("build failed: %s\n%s" % (" ".join(c), p.stdout[-6000:]))


def make_scratch(pid):
    """A scratch directory; its tmp is in memory where that is possible."""
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    os.mkdir(os.path.join(scratch, "cwd"))
    tmp = os.path.join(scratch, "tmp")
    try:
        os.symlink(tempfile.mkdtemp(prefix="verif-%s-" % pid, dir="/dev/shm"), tmp)
    except OSError:
        os.mkdir(tmp)
    return scratch


def remove_scratch(scratch):
    tmp = os.path.join(scratch, "tmp")
    if os.path.islink(tmp):
        shutil.rmtree(os.path.realpath(tmp), ignore_errors=True)
    shutil.rmtree(scratch, ignore_errors=True)


def test_env(scratch, tier, seed):
    env = go_env()
    env.update({
        "VK_TIER": tier, "VERIF_SEED": str(seed), "VK_ROUTEDNS": os.path.join(scratch, "routedns"),
        "GOTRACEBACK": "all", "TMPDIR": os.path.realpath(os.path.join(scratch, "tmp")),
        "VK_TESTDATA": "/repo/testdata",
    })
    return env


class Shard:
    def __init__(self, pid, scratch, env, n, of):
        self.n = n
        self.log = os.path.join(scratch, "log-%d.txt" % n)
        e = dict(env)
        e.update({"VK_SHARD": str(n), "VK_SHARDS": str(of), "VK_OUT": scratch})
        self.logf = open(self.log, "wb")
        self.p = subprocess.Popen([os.path.join(scratch, "check.test"), "-test.run=^Test%s$" % pid, "-test.timeout=0"],
                                  cwd=os.path.join(scratch, "cwd"), env=e, stdin=subprocess.DEVNULL,
                                  stdout=self.logf, stderr=subprocess.STDOUT, start_new_session=True)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def text(self):
        with open(self.log, "rb") as f:
            return f.read()[-400000:].decode("utf-8", "replace")


def replay_once(pid, scratch, env, case, hang_s):
    """Runs one case in a process of its own: ok, fail, hang, crash or error."""
    fd, name = tempfile.mkstemp(dir=scratch, suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump(case, f)
    e = dict(env)
    e.update({"VK_REPLAY": name, "VK_HANG_S": str(hang_s)})
    p = subprocess.Popen([os.path.join(scratch, "check.test"), "-test.run=^Test%s$" % pid, "-test.timeout=0"],
                         cwd=os.path.join(scratch, "cwd"), env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=hang_s + 60)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return "error", "replay timed out"
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.unlink(name)
    out = out.decode("utf-8", "replace")
    if p.returncode == 3 and "REPLAY-FAIL" in out:
        return "fail", out[out.index("REPLAY-FAIL") + 12:][:8000]
    if p.returncode == 4 and "REPLAY-HANG" in out:
        return "hang", "the case does not come to an end within %d s" % hang_s
    if p.returncode == 0 and "REPLAY-OK" in out:
        return "ok", ""
    msg = crash_in_repo(out)
    if msg:
        return "crash", msg
    return "error", out[-4000:]


def crash_in_repo(text):
    """The report of a crash or data race, if the code under test is in it."""
    m = re.search(r"^(WARNING: DATA RACE|panic: |fatal error: )", text, re.M)
    if not m:
        return None
    part = text[m.start():]
    if "verif: " in part.split("\n", 1)[0]:
        return None
    if part.startswith("WARNING: DATA RACE"):
        part = part.split("\n==================", 1)[0]
    else:
        # The first goroutine in the report is the one that failed.
        g = re.search(r"\n\ngoroutine .*?(\n\n|\Z)", part, re.S)
        if g:
            part = part[:g.end()]
    first = part.split("\n", 1)[0]
    if "out of memory" in first or "cannot allocate" in first:
        return None
    if "/repo/" in part:
        return part[:8000]
    return None


def shrink(pid, scratch, env, case, kind, budget_s=60):
    """Drops parts of a case that ends the process, as long as it still does."""
    end = time.time() + budget_s

    def still(c):
        r, _ = replay_once(pid, scratch, env, {"sub": case["sub"], "case": c}, 60)
        return r == kind

    def paths(v, p=()):
        if isinstance(v, list):
            yield p, v
            for i, x in enumerate(v):
                yield from paths(x, p + (i,))
        elif isinstance(v, dict):
            for k, x in v.items():
                yield from paths(x, p + (k,))

    cur = case["case"]
    progress = True
    while progress and time.time() < end:
        progress = False
        for p, lst in list(paths(cur)):
            size = max(len(lst) // 2, 1)
            while size >= 1 and time.time() < end:
                i = 0
                while i < len(lst) and time.time() < end:
                    cand = json.loads(json.dumps(cur))
                    ref = cand
                    try:
                        for k in p:
                            ref = ref[k]
                    except (KeyError, IndexError, TypeError):
                        break
                    if not isinstance(ref, list) or len(ref) <= i:
                        break
                    del ref[i:i + size]
                    if still(cand):
                        cur, lst, progress = cand, ref, True
                    else:
                        i += size
                size //= 2
            if progress:
                break
    return {"sub": case["sub"], "case": cur}


def current_case(scratch, n):
    try:
        with open(os.path.join(scratch, "current-%d.json" % n), "rb") as f:
            b = f.read()
        length = int(b[:8])
        return json.loads(b[9:9 + length])
    except (OSError, ValueError):
        return None


def write_replay(pid, v):
    d = os.path.join(EVIDENCE, "replays")
    os.makedirs(d, exist_ok=True)
    name = os.path.join(d, "%s-%s-%d.json" % (pid, v["sub"], int(time.time())))
    with open(name, "w") as f:
        json.dump(v, f, indent=1)
        f.write("\n")
    return name


def write_evidence(pid, prop, tier, seed, start, subs, distinct, v, replay, shards):
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": prop.get("level", "exploration"),
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in subs.values()),
            "distinct_nontrivial": distinct,
            "rule": "; ".join("%s: %s" % (n, s["rule"]) for n, s in subs.items()),
            "samples": [{"check": n, "case": c} for n, s in subs.items() for c in s["samples"]][:12],
            "checks": [{
                "name": n, "evaluations": s["evaluations"], "nontrivial": s["nontrivial"],
                "not_run_for_time": s["skipped"],
                "classes": dict(sorted(s["labels"].items())),
            } for n, s in subs.items()],
            "shards": shards,
        },
        "assumptions": prop.get("assumptions", []),
        "wall_s": round(time.time() - start, 1),
        "violations": [],
    }
    if v:
        ev["violations"] = [{"check": v["sub"], "message": v["message"][:2000], "replay": replay}]
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(tmp, os.path.join(EVIDENCE, "%s.json" % pid))


def merge(scratch, shards):
    subs, hashes, violation, hang = {}, set(), None, None
    for n in range(shards):
        try:
            with open(os.path.join(scratch, "result-%d.json" % n)) as f:
                r = json.load(f)
        except (OSError, ValueError):
            continue
        for s in r.get("subs") or []:
            t = subs.setdefault(s["name"], {"rule": s["rule"], "evaluations": 0, "nontrivial": 0, "skipped": 0, "labels": {}, "samples": []})
            t["evaluations"] += s["evaluations"]
            t["nontrivial"] += s["nontrivial"]
            t["skipped"] += s["skipped_budget"]
            for k, c in (s["labels"] or {}).items():
                t["labels"][k] = t["labels"].get(k, 0) + c
            if len(t["samples"]) < 3:
                t["samples"] += (s["samples"] or [])[:1]
        if r.get("violation") and (violation is None or len(json.dumps(r["violation"])) < len(json.dumps(violation))):
            violation = r["violation"]
        if r.get("hang") and hang is None:
            hang = r["hang"]
        try:
            with open(os.path.join(scratch, "hashes-%d.bin" % n), "rb") as f:
                b = f.read()
            hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        except OSError:
            pass
    return subs, len(hashes), violation, hang


def run(pid, tier, seed):
    start = time.time()
    prop = registry()[pid]
    scratch = make_scratch(pid)
    shards = []
    try:
        build(prop, scratch, tier)
        count = prop.get("shards", 8)
        budget = prop.get("budget_s", {}).get(tier, 240 if tier == "quick" else 1500)
        env = test_env(scratch, tier, seed)
        env["VK_BUDGET_S"] = str(int(os.environ.get("VERIF_BUDGET_S", budget)))
        env["VK_HANG_S"] = str(prop.get("hang_s", 150))
        shards = [Shard(pid, scratch, env, n, count) for n in range(count)]
        # Shrinking comes on top of the budget; this is the last resort.
        end = time.time() + int(env["VK_BUDGET_S"]) + 360
        bad, found = [], False
        waiting = list(shards)
        grace = None
        while waiting:
            time.sleep(0.05)
            for s in list(waiting):
                if s.p.poll() is None:
                    continue
                waiting.remove(s)
                res = os.path.join(scratch, "result-%d.json" % s.n)
                if s.p.returncode != 0:
                    bad.append(s)
                    found = True
                elif os.path.exists(res):
                    with open(res) as f:
                        if json.load(f).get("violation"):
                            found = True
            if found and waiting:
                grace = grace or time.time() + 1
                if time.time() > grace:
                    for s in waiting:
                        s.kill()
                    waiting = []
            if time.time() > end:
                for s in waiting:
                    s.kill()
                raise NoAnswer("not finished after %d s" % (time.time() - start))
        subs, distinct, v, hang = merge(scratch, count)
        notes = []
        if v is None and hang is not None:
            r, msg = replay_once(pid, scratch, env, hang, prop.get("hang_s", 150))
            if r == "ok":
                raise NoAnswer("a case did not end in time, but does on its own: %s" % json.dumps(hang)[:3000])
            if r == "error":
                raise NoAnswer("hanging case: " + msg)
            v = {"sub": hang["sub"], "case": hang["case"], "message": msg}
        elif v is None and bad:
            for s in bad:
                text = s.text()
                msg = crash_in_repo(text)
                case = current_case(scratch, s.n)
                if not msg or not case:
                    notes.append("shard %d ended with %s\n%s" % (s.n, s.p.returncode, text[-3000:]))
                    continue
                case = {"sub": case["sub"], "case": case["case"]}
                for _ in range(3):
                    r, m = replay_once(pid, scratch, env, case, 120)
                    if r in ("crash", "fail"):
                        msg = m
                        if r == "crash":
                            case = shrink(pid, scratch, env, case, r)
                        break
                v = dict(case, message="the process crashed: " + msg)
                break
            if v is None:
                raise NoAnswer("\n".join(notes))
        replay = write_replay(pid, v) if v else None
        write_evidence(pid, prop, tier, seed, start, subs, distinct, v, replay, count)
        for line in findings(pid):
            print(line)
        total = sum(s["evaluations"] for s in subs.values())
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (pid, tier, seed, total, distinct, time.time() - start))
        if v:
            print("%s: %s" % (v["sub"], v["message"][:4000]))
            print("case: %s" % json.dumps(v["case"])[:4000])
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1
        if total == 0 or distinct == 0:
            raise NoAnswer("nothing was explored")
        return 0
    finally:
        for s in shards:
            s.kill()
            s.logf.close()
        remove_scratch(scratch)


def findings(pid):
    try:
        with open(FINDINGS) as f:
            return [l.rstrip("\n") for l in f if l.startswith("KNOWN-FINDING: property=%s " % pid)]
    except OSError:
        return []


def replay(pid, name):
    prop = registry()[pid]
    scratch = make_scratch(pid)
    try:
        build(prop, scratch, "quick")
        with open(name) as f:
            case = json.load(f)
        r, msg = replay_once(pid, scratch, test_env(scratch, "quick", 1), case, 150)
        print(r, msg)
        if r == "error":
            raise NoAnswer(msg)
        if r != "ok":
            print("VIOLATION property=%s replay=%s" % (pid, name))
            return 1
        return 0
    finally:
        remove_scratch(scratch)


def main(argv):
    if len(argv) == 2 and argv[1] == "list":
        print("\n".join(registry()))
        return 0
    if len(argv) == 4 and argv[2] == "replay":
        return replay(argv[1], argv[3])
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    return run(pid, tier, seed)


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv))
    except NoAnswer as e:
        print("no answer: %s" % e, file=sys.stderr)
        sys.exit(2)
