#!/usr/bin/env python3
"""Decide one property by generated-input search: check.py <property> [--tier quick|thorough]
   check.py --build            build the harness from /repo's working tree
   check.py <property> --replay FILE   run one case again
Exit 0: held on everything explored; 1: VIOLATION line printed; anything else: no answer."""
import concurrent.futures, fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HARNESS, "target")
BIN = os.path.join(TARGET, "debug", "mcap-verif")
REPO = "/repo"
KNOWN = os.path.join(HERE, "known_findings.txt")

sys.path.insert(0, HERE)
from props_meta import META  # noqa: E402


def repo_hash():
    h = hashlib.sha256()
    for root in ("src", "Cargo.toml", "examples"):
        p = os.path.join(REPO, root)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def build():
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".verif-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
        env.pop("RUSTFLAGS", None)
        stamp = os.path.join(TARGET, ".repo-hash")
        h = repo_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != h:
            # file times may not tell (copies, checkouts): never reuse a build of other sources
            subprocess.run(["cargo", "clean", "--offline", "-p", "libmcaptcha"], cwd=HARNESS, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if os.path.exists(stamp):
                os.unlink(stamp)
        r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=HARNESS, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0:
            print(r.stdout[-6000:])
            print("harness did not build")
            sys.exit(2)
        with open(stamp, "w") as f:
            f.write(h)


def known_findings(pid):
    """[(signature, text)] of listed findings: lines 'KNOWN property=<id> signature=<substring> :: <text>'"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("known: property=%s " % pid):
                out.append(line.split(" ", 2)[2].strip())
    return out


def run_workers(pid, tier, seed, shards, scratch, limit):
    procs = []
    for s in range(shards):
        out = os.path.join(scratch, "r%d.json" % s)
        err = open(os.path.join(scratch, "e%d.txt" % s), "wb")
        env = dict(os.environ, RUST_BACKTRACE="0")
        p = subprocess.Popen([BIN, "worker", pid, "--seed", str(seed), "--shard", str(s), "--shards", str(shards),
                              "--tier", tier, "--out", out], stdout=subprocess.DEVNULL, stderr=err,
                             stdin=subprocess.DEVNULL, env=env, cwd=scratch)
        procs.append((s, p, out, err))
    end = time.time() + limit
    results, problems = [], []
    for s, p, out, err in procs:
        try:
            rc = p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            problems.append("shard %d: time limit" % s)
            continue
        finally:
            err.close()
        if os.path.exists(out):
            r = json.load(open(out))
            results.append(r)
            if r.get("inconclusive"):
                problems.append("shard %d: %s" % (s, r["inconclusive"]))
            if rc not in (0, 3, 4):
                problems.append("shard %d: ended with %d" % (s, rc))
        else:
            j = out + ".journal"
            if rc == -6 and os.path.exists(j):  # aborted: a panic while unwinding, in the case left behind
                d = json.load(open(j))
                results.append({"evaluations": 1, "nontrivial": [], "labels": {}, "counts": {}, "samples": [],
                                "rule": "", "failure": {"message": "the process aborted: " + d["message"],
                                                        "case": d["case"], "first_message": d["message"],
                                                        "shrink_steps": 0}})
            else:
                tail = open(os.path.join(scratch, "e%d.txt" % s), errors="replace").read()[-800:]
                problems.append("shard %d: ended with %d and no result: %s" % (s, rc, tail))
    return results, problems


def replay(pid, path, tries=1):
    def one(_):
        try:
            return subprocess.run([BIN, "replay", pid, path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                  stdin=subprocess.DEVNULL, timeout=90).returncode in (1, 3, -6)
        except subprocess.TimeoutExpired:
            return False
    with concurrent.futures.ThreadPoolExecutor(tries) as pool:
        return sum(pool.map(one, range(tries)))


LISTS = ("ops", "batch", "subs", "entries", "events", "steps")


def shrink_outside(pid, fails, scratch):
    """Failures that end their process (a hang, an abort) could not be shrunk in it: of the first one that
    comes again, shorten the list of operations as long as fresh processes end in the same way."""
    def ends(case, name):
        p = os.path.join(scratch, name)
        with open(p, "w") as fh:
            json.dump({"case": case}, fh)
        try:
            return subprocess.run([BIN, "replay", pid, p], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                  stdin=subprocess.DEVNULL, timeout=60).returncode
        except subprocess.TimeoutExpired:
            return None
    end = time.time() + 90
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        got = list(pool.map(lambda t: ends(t[1]["case"], "f%d" % t[0]), enumerate(fails[:8])))
        again = [(f, rc) for f, rc in zip(fails, got) if rc in (1, 3, -6)]
        if not again:
            return
        f, want = again[0]
        fails.remove(f)
        fails.insert(0, f)
        case, steps, n = f["case"], 0, 2
        key = next((k for k in LISTS if isinstance(case, dict) and isinstance(case.get(k), list)), None)
        while key and len(case[key]) > 1 and time.time() < end:
            ops = case[key]
            size = -(-len(ops) // n)
            tries = [dict(case, **{key: ops[:i] + ops[i + size:]}) for i in range(0, len(ops), size)]
            got = list(pool.map(lambda t: ends(t[1], "s%d" % t[0]), enumerate(tries)))
            good = [t for t, rc in zip(tries, got) if rc == want]
            if good:
                case, n, steps = min(good, key=lambda t: len(t[key])), max(2, n - 1), steps + 1
            elif size == 1:
                break
            else:
                n = min(len(ops), 2 * n)
    f["case"], f["shrink_steps"] = case, steps


def main():
    args = sys.argv[1:]
    if args[:1] == ["--build"]:
        build()
        return 0
    pid = args[0]
    tier = args[args.index("--tier") + 1] if "--tier" in args else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if "--seed" in args:
        seed = int(args[args.index("--seed") + 1])
    if "--replay" in args:
        build()
        p = args[args.index("--replay") + 1]
        r = subprocess.run([BIN, "replay", pid, p], stdout=subprocess.DEVNULL)
        if r.returncode in (1, 3, -6):
            print("VIOLATION property=%s replay=%s" % (pid, p))
            return 1
        return r.returncode
    t0 = time.time()
    build()
    meta = META[pid]
    shards = meta.get("shards", 8)
    scratch = tempfile.mkdtemp(prefix="mcap-%s-" % pid)
    try:
        t1 = time.time()
        results, problems = run_workers(pid, tier, seed, shards, scratch, 600 if tier == "quick" else 6 * 3600)
        results = [r for r in results if r]
        fails = sorted((r["failure"] for r in results if r.get("failure")),
                       key=lambda f: len(json.dumps(f["case"])))
        if fails and not fails[0].get("shrink_steps"):
            shrink_outside(pid, fails, scratch)
        extra_fail = None
        if meta.get("post"):
            import props_meta
            extra_fail, extra_cov = getattr(props_meta, meta["post"])(BIN, seed, tier, scratch)
        else:
            extra_cov = {}
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if extra_fail:
        fails.append(extra_fail)
    nontrivial, labels, counts, samples = set(), {}, {}, []
    for r in results:
        nontrivial.update(r["nontrivial"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for s in r["samples"][:1]:
            if len(json.dumps(s)) < 6000 and len(samples) < 5:
                samples.append(s)
    evals = sum(r["evaluations"] for r in results)
    rule = next((r["rule"] for r in results if r["rule"]), "")
    cov = {"evaluations": evals, "distinct_nontrivial": len(nontrivial),
           "rule": "cases drawn by the generator of this property (%s); non-trivial when %s" % (meta["gen"], rule),
           "samples": samples, "cases_per_label": labels, "totals": counts, "oracle": meta["oracle"],
           "shards": shards, "search_s": round(time.time() - t1, 2)}
    cov.update(extra_cov)
    if problems:
        cov["problems"] = problems
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": meta["assumes"], "wall_s": round(time.time() - t0, 2), "violations": len(fails)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ep = os.path.join(HERE, "evidence", pid + ".json")
    for text in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    if fails:
        f = fails[0]
        os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
        rp = os.path.join(HERE, "out", "%s-seed%d.json" % (pid, seed))
        with open(rp, "w") as fh:
            json.dump({"property": pid, "message": f["message"], "first_message": f["first_message"],
                       "shrink_steps": f["shrink_steps"], "case": f["case"]}, fh, indent=1)
        if not f.get("no_replay"):
            n = replay(pid, rp, 3)
            cov["replayed"] = "%d of 3 replays fail as well" % n
        json.dump(ev, open(ep, "w"), indent=1)
        print("%s: %s" % (pid, f["message"]))
        print("shrunk case: %s" % json.dumps(f["case"])[:3000])
        print("replays: %s" % cov.get("replayed", "n/a"))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    json.dump(ev, open(ep, "w"), indent=1)
    print("%s: held on %d cases (%d distinct non-trivial) in %.1f s" % (pid, evals, len(nontrivial), time.time() - t0))
    if problems or not results:
        for p in problems:
            print("no answer: %s" % p)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
