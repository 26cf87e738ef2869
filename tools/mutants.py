#!/usr/bin/env python3
"""Looks for changes of /repo that no check notices.

    mutants.py build          write the switchable changes and build the checks with them (in DIR)
    mutants.py cov [ID...]    run the quick checks, note which changes are reached
    mutants.py kill [FILTER]  run the checks with each reached change, one shard; note the first check that fails
    mutants.py more [FILTER]  the same for those that survived, all shards
    mutants.py show [FILTER]  those not reached and those that survived

FILTER is a regular expression for the line of list.tsv. No check uses this.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

DIR = os.environ.get("MUT_DIR", "/tmp/mut")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import check  # noqa: E402

REG = check.registry()
PROPS = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))}


def mutants():
    out = {}
    for l in open(os.path.join(DIR, "list.tsv")):
        n, f, line, kind, text = l.rstrip("\n").split("\t", 4)
        out[int(n)] = (f, int(line), kind, text)
    return out


def build():
    env = check.go_env()
    subprocess.check_call(["go", "run", "./tools/mutants", DIR], cwd=check.GODIR, env=env)
    rebuild()


def rebuild():
    env = check.go_env()
    b = os.path.join(DIR, "bin")
    os.makedirs(b, exist_ok=True)
    ov = "-overlay=" + os.path.join(DIR, "overlay.json")
    for p in sorted({r["pkg"] for r in REG.values()}):
        subprocess.check_call(["go", "test", "-c", "-vet=off", ov, "-o", os.path.join(b, p + ".test"), "./props/" + p], cwd=check.GODIR, env=env)
    subprocess.check_call(["go", "build", ov, "-o", os.path.join(b, "routedns"), "github.com/folbricht/routedns/cmd/routedns"], cwd=check.GODIR, env=env)


def run(pid, shard, shards, mut=0, cov=None, timeout=400, net=True, bindir=os.path.join(DIR, "bin")):
    """Runs one shard: (exit code or 'timeout', seconds, last output)."""
    d = tempfile.mkdtemp(prefix="mut-", dir="/dev/shm")
    try:
        for s in ("out", "cwd", "tmp"):
            os.mkdir(os.path.join(d, s))
        e = check.go_env()
        e.update({"VK_TIER": "quick", "VERIF_SEED": "1", "VK_ROUTEDNS": os.path.join(bindir, "routedns"), "TMPDIR": os.path.join(d, "tmp"),
                  "VK_TESTDATA": "/repo/testdata", "VK_SHARD": str(shard), "VK_SHARDS": str(shards), "VK_OUT": os.path.join(d, "out"),
                  "VK_BUDGET_S": "300", "VK_HANG_S": "60", "VK_FIRST": "1"})
        if mut:
            e["VK_MUT"] = str(mut)
        if cov:
            e["VK_MUT_COV"] = cov
        cmd = [os.path.join(bindir, REG[pid]["pkg"] + ".test"), "-test.run=^Test%s$" % pid, "-test.timeout=0"]
        if net:
            cmd = ["unshare", "-Urn", "--kill-child", "-pf", "--mount-proc", "sh", "-c", 'ip link set lo up; exec "$@"', "sh"] + cmd
        t = time.time()
        log = open(os.path.join(d, "log"), "w+b")
        p = subprocess.Popen(cmd, cwd=os.path.join(d, "cwd"), env=e, stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            code = p.wait(timeout)
        except subprocess.TimeoutExpired:
            code = "timeout"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        log.seek(0)
        text = log.read()[-3000:].decode("utf-8", "replace")
        if code == 0:
            for n in os.listdir(os.path.join(d, "out")):
                if n.startswith("result") or n.endswith(".json"):
                    try:
                        v = json.load(open(os.path.join(d, "out", n)))
                        if v.get("violation") or v.get("Violation"):
                            code = 3
                            text = json.dumps(v.get("violation") or v.get("Violation"))[:500]
                    except (ValueError, AttributeError):
                        pass
        return code, time.time() - t, text
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cov(ids):
    os.makedirs(os.path.join(DIR, "cov"), exist_ok=True)
    tf = os.path.join(DIR, "times.json")
    times = json.load(open(tf)) if os.path.exists(tf) else {}
    for pid in ids or REG:
        f = os.path.join(DIR, "cov", pid + ".bin")
        with open(f, "wb") as h:
            h.write(b"\0" * 65536)
        with cf.ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda i: run(pid, i, 8, cov=f), range(8)))
        times[pid] = max(r[1] for r in rs)
        print(pid, [r[0] for r in rs], "%.0f s" % times[pid], sum(open(f, "rb").read()), flush=True)
        for r in rs:
            if r[0] != 0:
                print(r[2][-800:])
                break
        json.dump(times, open(tf, "w"))


def reached():
    out = {}
    for pid in REG:
        f = os.path.join(DIR, "cov", pid + ".bin")
        if os.path.exists(f):
            for n, b in enumerate(open(f, "rb").read()):
                if b:
                    out.setdefault(n, []).append(pid)
    return out


def results():
    out = {}
    f = os.path.join(DIR, "results.jsonl")
    if os.path.exists(f):
        for l in open(f):
            r = json.loads(l)
            out[r["n"]] = r
    return out


def kill(pat, more=False):
    ms, rs, done = mutants(), reached(), results()
    times = json.load(open(os.path.join(DIR, "times.json")))
    lock = threading.Lock()
    out = open(os.path.join(DIR, "results.jsonl"), "a")
    todo = []
    for n, m in sorted(ms.items()):
        if n not in rs or not re.search(pat, "\t".join(map(str, m))):
            continue
        if more:
            if n in done and done[n]["by"] is None:
                todo.append(n)
        elif n not in done:
            todo.append(n)
    print(len(todo), "to do", flush=True)
    count = [0, 0]

    def one(n):
        m = ms[n]
        order = sorted(rs[n], key=lambda p: (m[0] not in PROPS[p]["anchors"]["files"], times[p]))
        by, why, took = None, "", 0
        for pid in order:
            if not more and pid not in order[:3] and times[pid] > 40:
                continue
            for s in (range(1, 8) if more else [0]):
                code, t, text = run(pid, s, 8, mut=n)
                took += t
                if code != 0:
                    by, why = pid, "%s %s" % (code, text[-300:])
                    break
            if by:
                break
        with lock:
            out.write(json.dumps({"n": n, "by": by, "why": why, "took": took, "tried": order}) + "\n")
            out.flush()
            count[0] += 1
            count[1] += by is None
            if count[0] % 50 == 0 or by is None:
                print(count, n, m, "took %.0f" % took, order, flush=True)

    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, todo))


def show(pat):
    ms, rs, done = mutants(), reached(), results()
    for n, m in sorted(ms.items()):
        if not re.search(pat, "\t".join(map(str, m))):
            continue
        if n not in rs:
            print("unreached", n, *m, sep="\t")
        elif n in done and done[n]["by"] is None:
            print("survived", n, *m, ",".join(done[n]["tried"]), sep="\t")


if __name__ == "__main__":
    what, args = sys.argv[1], sys.argv[2:]
    {"build": build, "rebuild": rebuild, "cov": lambda: cov(args), "kill": lambda: kill(args[0] if args else ""),
     "more": lambda: kill(args[0] if args else "", True), "show": lambda: show(args[0] if args else "")}[what]()
