#!/usr/bin/env python3
"""Runs the property tests of one property against /repo.

  check.py C01            decide property C01 (VERIF_SEED, VERIF_TIER)
  check.py replay FILE    re-run a saved failure
  check.py setup          compile everything once

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Exit 2: no answer (does not compile, timeout, out of memory).
For development, VERIF_REPO names another copy of the library.
"""
import base64, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
CONFIG = json.load(open(os.path.join(VERIF, "checks.json")))
REPO = os.environ.get("VERIF_REPO", "/repo")


def go_env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off",
             GOSUMDB="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", HOME="/root")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    for d in ("/opt/veriftools/go1.27.3/bin",):
        if os.path.isdir(d):
            e["PATH"] = d + ":" + e.get("PATH", "/usr/bin:/bin")
    e.pop("GORACE", None)
    return e


def build(out, race, tmp, extra=()):
    cmd = ["go", "test", "-c", "-vet=off", "-o", out, *extra]
    if race:
        cmd.append("-race")
    if REPO != "/repo":
        mod = os.path.join(tmp, "dev.mod")
        s = open(os.path.join(HARNESS, "go.mod")).read().replace("=> /repo", "=> " + REPO)
        open(mod, "w").write(s)
        shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(tmp, "dev.sum"))
        cmd.append("-modfile=" + mod)
    cmd.append("./props")
    p = subprocess.run(cmd, cwd=HARNESS, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print("cannot build the harness:\n" + p.stdout[-4000:])
        return False
    return True


def seed_for(seed, pid, shard):
    h = hashlib.sha256(f"{seed}/{pid}/{shard}".encode()).digest()
    return (struct.unpack("<Q", h[:8])[0] >> 1) | 1


GRACE = 45  # how long the other shards may go on after one has failed


def run_shard(binary, pid, seed, tier, shard, shards, cfg, tmp, failed):
    d = os.path.join(tmp, f"s{shard}")
    os.makedirs(d)
    e = go_env()
    scale = cfg.get("thorough_scale", 60) if tier == "thorough" else cfg.get("quick_scale", 4)
    if os.environ.get("VERIF_SCALE"):
        scale = float(os.environ["VERIF_SCALE"])
    e.update(VERIF_STATS_FILE=os.path.join(d, "stats.json"), VERIF_SHARDS=str(shards), VERIF_SHARD=str(shard),
             VERIF_SCALE=str(scale), VERIF_TIER=tier, VERIF_SCRATCH=d,
             GOMEMLIMIT="3GiB", GORACE="halt_on_error=1 exitcode=66", GOTRACEBACK="single")
    if shards >= 8:
        e["GOMAXPROCS"] = "2"
    limit = 3000 if tier == "thorough" else 800
    cmd = [binary, "-test.run", f"^Test{pid}_", f"-test.timeout={limit}s", f"-rapid.seed={seed_for(seed, pid, shard)}",
           "-rapid.shrinktime=20s", "-test.count=1"]
    logf = os.path.join(d, "out.txt")
    try:
        with open(logf, "w") as f:
            p = subprocess.Popen(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT)
            end = time.time() + limit + 60
            while True:
                try:
                    rc = p.wait(timeout=2)
                    break
                except subprocess.TimeoutExpired:
                    if time.time() > end or failed and time.time() > failed[0] + GRACE:
                        p.kill()
                        p.wait()
                        rc = -1
                        break
    except OSError:
        rc = -1
    r = dict(shard=shard, rc=rc, out=open(logf, errors="replace").read(), dir=d)
    if classify(r) == "fail":
        failed.append(time.time())
    return r


def classify(r):
    """ok, fail or error"""
    if r["rc"] == 0:
        return "ok"
    out = r["out"]
    if r["rc"] < 0 or "test timed out" in out or "out of memory" in out or "cannot allocate memory" in out:
        return "error"
    if "--- FAIL" in out or "WARNING: DATA RACE" in out:
        return "fail"
    if re.search(r"^(panic:|fatal error: (concurrent map|all goroutines are asleep|stack overflow))", out, re.M):
        return "fail"
    return "error"


def save_replay(pid, seed, r):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    fails = []
    for root, _, files in os.walk(os.path.join(r["dir"], "testdata")):
        for f in files:
            if f.endswith(".fail"):
                fails.append(dict(test=os.path.basename(root), name=f, content=open(os.path.join(root, f), errors="replace").read()))
    m = re.findall(r"--- FAIL: (\S+)", r["out"])
    path = os.path.join(d, f"{pid}-{seed}-{r['shard']}.json")
    json.dump(dict(property=pid, tests=m, seed=seed, rapid_seed=seed_for(seed, pid, r["shard"]), failfiles=fails, inputs=r.get("inputs", []),
                   output=r["out"][-20000:]), open(path, "w"), indent=1)
    return path


def known_findings(pid):
    path = os.path.join(VERIF, "known-findings")
    out = []
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append(m.group(2).strip())
    return out


def decide(pid):
    t0 = time.time()
    cfg = CONFIG[pid]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    tmp = tempfile.mkdtemp(prefix="verif-" + pid + "-")
    try:
        binary = os.path.join(tmp, "props.test")
        if not build(binary, cfg.get("race", False), tmp):
            return 2
        shards = cfg.get("shards", 8)
        with ThreadPoolExecutor(8) as ex:
            failed = []
            rs = list(ex.map(lambda s: run_shard(binary, pid, seed, tier, s, shards, cfg, tmp, failed), range(shards)))
        if tier == "thorough":
            for tgt in cfg.get("fuzz", []):
                rs.append(run_fuzz(pid, tgt, cfg, tmp))
        merged = {}
        for r in rs:
            p = os.path.join(r["dir"], "stats.json")
            if not os.path.exists(p):
                continue
            for name, st in json.load(open(p)).items():
                m = merged.setdefault(name, dict(rule=st["rule"], evaluations=0, hashes=set(), labels={}, samples=[]))
                m["evaluations"] += st["evaluations"]
                b = base64.b64decode(st["hashes"])
                m["hashes"].update(struct.unpack(f"<{len(b)//8}Q", b))
                for k, v in (st["labels"] or {}).items():
                    m["labels"][k] = m["labels"].get(k, 0) + v
                if len(m["samples"]) < 4:
                    m["samples"] += (st["samples"] or [])[:2]
        kinds = [classify(r) for r in rs]
        nviol = kinds.count("fail")
        ev = dict(property=pid, tier=tier, seed=seed, level=cfg["level"], wall_s=round(time.time() - t0, 2), violations=nviol,
                  coverage=dict(
                      evaluations=sum(m["evaluations"] for m in merged.values()),
                      distinct_nontrivial=sum(len(m["hashes"]) for m in merged.values()),
                      rule="; ".join(f"{n}: {m['rule']}" for n, m in sorted(merged.items())),
                      samples=[f"{n}: {s}" for n, m in sorted(merged.items()) for s in m["samples"][:3]],
                      tests={n: dict(evaluations=m["evaluations"], distinct_nontrivial=len(m["hashes"]), labels=m["labels"])
                             for n, m in sorted(merged.items())},
                      shards=shards),
                  assumptions=cfg.get("assumptions", []))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
        c = ev["coverage"]
        for n, m in sorted(merged.items()):
            print(f"{n}: {m['evaluations']} cases, {len(m['hashes'])} distinct non-trivial {m['labels'] or ''}")
        for k in known_findings(pid):
            print(f"KNOWN-FINDING: property={pid} {k}")
        if nviol:
            shown = 0
            for r, k in zip(rs, kinds):
                if k == "fail":
                    path = save_replay(pid, seed, r)
                    if shown == 0:
                        print(r["out"][-6000:])
                        print(f"VIOLATION property={pid} replay={path}")
                    shown += 1
            return 1
        if "error" in kinds:
            r = rs[kinds.index("error")]
            print(f"shard {r['shard']} gave no answer (exit {r['rc']}):\n" + r["out"][-4000:])
            return 2
        if not merged:
            print("no tests ran")
            return 2
        print(f"{pid} held: {c['evaluations']} cases, {c['distinct_nontrivial']} distinct non-trivial, {time.time()-t0:.1f} s")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_fuzz(pid, target, cfg, tmp):
    """Coverage-guided fuzzing (thorough tier only)."""
    d = os.path.join(tmp, "fuzz-" + target)
    os.makedirs(d)
    r = dict(shard="fuzz-" + target, rc=2, out="cannot build the fuzz target", dir=d)
    binary = os.path.join(d, "fuzz.test")
    if not build(binary, False, tmp, ["-fuzz", f"^{target}$"]):
        return r
    secs = cfg.get("fuzz_s", 600)
    cmd = [binary, "-test.run", "^$", "-test.fuzz", f"^{target}$", "-test.fuzztime", f"{secs}s", "-test.fuzzminimizetime", "3s",
           "-test.fuzzcachedir=" + os.path.join(d, "cache"), "-test.parallel", "8"]
    try:
        p = subprocess.run(cmd, cwd=d, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=secs + 300)
        r["rc"], out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        r["rc"], out = -1, str(e.stdout)[-4000:]
    # The fuzzer itself fails if its time ends while it looks at an input.
    if r["rc"] != 0 and "context deadline exceeded" in out and "Failing input written" not in out:
        r["rc"] = 0
    for root, _, files in os.walk(os.path.join(d, "testdata", "fuzz")):
        for f in files:
            out += f"\nfailing input {f}:\n" + open(os.path.join(root, f)).read()
            r.setdefault("inputs", []).append(dict(target=target, name=f, content=open(os.path.join(root, f)).read()))
    r["out"] = out
    m = re.findall(r"execs: (\d+)", out)
    new = re.findall(r"total: (\d+)", out)
    if m:
        k = int(new[-1]) if new else 1
        hs = b"".join(hashlib.sha256(f"{target}/{i}".encode()).digest()[:8] for i in range(k))
        json.dump({target: dict(rule="coverage-guided fuzzing of the bytes (native fuzzer); non-trivial: inputs that reach new code", evaluations=int(m[-1]),
                                hashes=base64.b64encode(hs).decode(), labels={}, samples=[])},
                  open(os.path.join(d, "stats.json"), "w"))
    return r


def replay(path):
    rec = json.load(open(path))
    pid = rec["property"]
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        binary = os.path.join(tmp, "props.test")
        if not build(binary, CONFIG[pid].get("race", False), tmp):
            return 2
        bad = False
        for f in rec.get("inputs", []):
            d = os.path.join(tmp, "testdata", "fuzz", f["target"])
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, f["name"]), "w").write(f["content"])
            p = subprocess.run([binary, "-test.run", f"^{f['target']}$/{f['name']}", "-test.v"], cwd=tmp, env=go_env())
            bad |= p.returncode != 0
        if rec.get("inputs"):
            pass
        elif rec["failfiles"]:
            for f in rec["failfiles"]:
                ff = os.path.join(tmp, f["name"])
                open(ff, "w").write(f["content"])
                p = subprocess.run([binary, "-test.run", f"^{f['test']}$", "-rapid.failfile=" + ff, "-rapid.nofailfile", "-test.v"],
                                   cwd=tmp, env=go_env())
                bad |= p.returncode != 0
        else:
            for t in rec["tests"] or [f"Test{pid}_.*"]:
                p = subprocess.run([binary, "-test.run", f"^{t}$", f"-rapid.seed={rec['rapid_seed']}", "-test.v"], cwd=tmp, env=go_env())
                bad |= p.returncode != 0
        if bad:
            print(f"VIOLATION property={pid} replay={path}")
        return 1 if bad else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def setup():
    tmp = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        ok = build(os.path.join(tmp, "a.test"), False, tmp)
        return 0 if ok else 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) == 2 and sys.argv[1] == "setup":
        sys.exit(setup())
    if len(sys.argv) == 2 and sys.argv[1] in CONFIG:
        sys.stdout.flush()
        rc = decide(sys.argv[1])
        sys.stdout.flush()
        sys.exit(rc)
    print(__doc__)
    sys.exit(2)
