#!/usr/bin/env python3
"""Driver: builds a property's harness from /repo's current tree, explores it
in parallel shards, confirms every violation by replay, writes evidence.

  check.py C01                 run (tier from VERIF_TIER: quick|thorough)
  check.py C01 --replay FILE   re-run one recorded violation
"""
import array, fnmatch, json, mmap, os, resource, shutil, signal, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
NCPU = os.cpu_count() or 4
sys.path.insert(0, HERE)
from mc.config import CHECKS, VARIANTS  # noqa: E402


def load_known(prop):
    known, fixed = [], []
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("finding: "):
                # finding: property=C01 id=<glob> <what fails>
                _, p, i, what = line.split(" ", 3)
                if p == "property=" + prop:
                    known.append((i[len("id="):], what))
    return known


class Job:
    """one binary x one shard"""

    def __init__(self, b, shard, nshards):
        self.b, self.shard, self.nshards = b, shard, nshards
        self.skip = []


def compile_one(b):
    t = time.time()
    cmd = b["cmd"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    b["compile_s"] = time.time() - t
    b["log"] = r.stdout
    return r.returncode


def run_env(b):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:detect_stack_use_after_return=1:hard_rss_limit_mb=6000"
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:exitcode=77"
    # the precompiled C++ library compares memory it initialised itself, unseen
    e["MSAN_OPTIONS"] = "exitcode=77:intercept_memcmp=0:strict_memcmp=0:intercept_strlen=0:intercept_strchr=0"
    e["TSAN_OPTIONS"] = "exitcode=77:halt_on_error=1"
    e["MALLOC_PERTURB_"] = "165"
    return e


def limits(b):
    def f():
        os.setsid()
        if not b["san"]:
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run_shard(b, wd, shard, nshards, level, seed, skip, only=None, hang=60, timeout=3000):
    tag = f"{b['name']}.{'only' if only is not None else shard}"
    out = os.path.join(wd, tag)
    for s in (".json", ".viol", ".states", ".prog"):
        if os.path.exists(out + s):
            os.unlink(out + s)
    scratch = os.path.join(wd, "scratch." + tag)
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    cmd = [b["bin"], "--shard", str(shard), "--nshards", str(nshards), "--level", str(level),
           "--seed", str(seed), "--out", out, "--variant", b["variant"], "--scratch", scratch,
           "--progress", out + ".prog", "--hang", str(hang)]
    if only is not None:
        cmd += ["--only", only]
    for s in skip:
        cmd += ["--skip", s]
    t = time.time()
    with open(out + ".log", "wb") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=lf, stdin=subprocess.DEVNULL, cwd=scratch,
                             env=run_env(b), preexec_fn=limits(b))
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            rc = p.wait()
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
    shutil.rmtree(scratch, ignore_errors=True)
    res = {"rc": rc, "wall": time.time() - t, "viol": [], "crash": None, "sum": None, "states": out + ".states"}
    if os.path.exists(out + ".viol"):
        with open(out + ".viol") as f:
            for line in f:
                try:
                    res["viol"].append(json.loads(line))
                except ValueError:
                    pass
    if os.path.exists(out + ".json"):
        with open(out + ".json") as f:
            res["sum"] = json.load(f)
    if rc not in (0, 10):
        cur = ""
        if os.path.exists(out + ".prog"):
            with open(out + ".prog", "rb") as f:
                raw = f.read()[8:]
            cur = raw.split(b"\0", 1)[0].decode("utf-8", "replace")
        with open(out + ".log", "rb") as f:
            tail = f.read()[-200000:].decode("utf-8", "replace")
        why = {-14: "no termination", -11: "segmentation fault", -6: "abort", -9: "killed (memory)", -8: "arithmetic trap"}.get(rc, f"exit code {rc}")
        hint = ""
        for line in tail.splitlines():
            if ("runtime error" in line or "ERROR: AddressSanitizer" in line or "Assertion" in line
                    or "WARNING: ThreadSanitizer" in line or "Error:" in line or "terminate called" in line):
                hint = line.strip()[:300]
                break
        res["crash"] = (cur, why + (": " + hint if hint else ""))
    return res


def main():
    prop = sys.argv[1]
    cfg = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    wd = os.path.join(HERE, ".build", prop)
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(os.path.join(wd, "inc"))
    os.symlink(REPO, os.path.join(wd, "inc", "bezman"))
    replay_dir = os.path.join(HERE, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)

    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        with open(sys.argv[3]) as f:
            replay = json.load(f)

    bins = []
    for h in cfg["harness"]:
        for v in h["variants"]:
            vv = VARIANTS[v]
            for part in h.get("parts", [0]):
                name = f"{h['src'].split('.')[0]}.{v}.p{part}"
                lev = h["variants"][v]
                level = lev[1] if tier == "thorough" else lev[0]
                if level is None:
                    continue
                if replay and replay["bin"] != name:
                    continue
                src = os.path.join(HERE, "harness", h["src"])
                b = {"name": name, "variant": v, "level": level, "san": vv.get("san", False),
                     "bin": os.path.join(wd, name), "shards": h.get("shards", NCPU),
                     "solo": h.get("solo", False), "weight": h.get("weight", 1)}
                if h.get("sh"):  # several steps
                    b["cmd"] = ["sh", "-ec", h["sh"].format(part=part, here=HERE, inc=os.path.join(wd, "inc"), src=src,
                                                           bin=b["bin"], repo=REPO, wd=wd)]
                else:
                    b["cmd"] = (vv["cc"] + [f"-DPART={part}", f"-DMC_VARIANT_{v.upper()}=1"] + h.get("flags", []) +
                                ["-I", HERE, "-I", os.path.join(wd, "inc"), src, "-o", b["bin"]] + h.get("libs", []))
                bins.append(b)
    with ThreadPoolExecutor(NCPU) as ex:
        rcs = list(ex.map(compile_one, bins))
    unbuilt = [b["name"] for b, rc in zip(bins, rcs) if rc != 0]
    for b in bins:
        if b["name"] in unbuilt:
            print(b["log"][-3000:])
            print(f"ERROR: {b['name']} does not build against {REPO}")
    # what builds is explored all the same: a violation found there counts,
    # without one the answer stays "no answer"
    bins = [b for b in bins if b["name"] not in unbuilt]
    if not bins:
        return 2
    tc = time.time() - t0

    if replay:
        b = bins[0]
        hist = replay.get("after_all_scenarios_of_shard")
        if hist:
            r = run_shard(b, wd, hist[0], hist[1], replay["level"], seed, [])
            r["viol"] = [v for v in r["viol"] if v["id"] == replay["id"]]
        else:
            r = run_shard(b, wd, 0, 1, replay["level"], seed, [], only=replay["id"], hang=200)
        bad = r["viol"] or r["crash"]
        print(("VIOLATION reproduced: " if bad else "not reproduced: ") + replay["id"], r["viol"], r["crash"] or "")
        return 1 if bad else 0

    known = load_known(prop)
    budget = 700 if tier == "quick" else 6 * 3600

    def full(job):
        b, sh = job
        skip, tot = [], []
        for attempt in range(4):
            left = budget - (time.time() - t0)
            r = run_shard(b, wd, sh, b["shards"], b["level"], seed, skip, timeout=max(30, left))
            tot.append(r)
            if not r["crash"]:
                break
            if not r["crash"][0]:
                break
            skip.append(r["crash"][0])
        return b, sh, tot

    jobs = [(b, s) for b in sorted(bins, key=lambda x: -x["weight"]) for s in range(b["shards"])]
    with ThreadPoolExecutor(NCPU) as ex:
        results = list(ex.map(full, jobs))

    states = set()
    agg = {"transitions": 0, "validated": 0, "ran": 0, "index": 0}
    counters, samples, cand, per = {}, [], [], {}
    incomplete = [n + " (not built)" for n in unbuilt]
    for b, sh, tot in results:
        for r in tot:
            for v in r["viol"]:
                cand.append((b, v["id"], v["msg"], sh))
            if r["crash"]:
                cand.append((b, r["crash"][0], r["crash"][1], sh))
        last = tot[-1]
        if last["crash"] or not last["sum"]:
            incomplete.append(f"{b['name']} shard {sh}")
        s = last["sum"]
        if s:
            if not s["complete"]:
                incomplete.append(f"{b['name']} shard {sh}")
            agg["transitions"] += s["transitions"]
            agg["validated"] += s["validated"]
            agg["ran"] += s["ran"]
            p = per.setdefault(b["name"], {"scenarios": 0, "transitions": 0, "level": b["level"]})
            p["scenarios"] += s["ran"]
            p["transitions"] += s["transitions"]
            if sh == 0:
                agg["index"] += s["index"]
            for k, n in s["counters"].items():
                counters[k] = counters.get(k, 0) + n
            samples += [f"{b['variant']}: {x}" for x in s["samples"]]
            if os.path.exists(last["states"]):
                a = array.array("Q")
                with open(last["states"], "rb") as f:
                    a.frombytes(f.read())
                states.update(a)

    # confirm candidates alone (deterministic replay), report
    violations, seen_known, unconfirmed = [], set(), []
    seen = set()
    rerun = {}
    for b, i, msg, sh in cand:
        if len(violations) >= 5:
            break
        if (b["name"], i) in seen:
            continue
        seen.add((b["name"], i))
        if not i:
            unconfirmed.append((b["name"], i, msg))
            continue
        r = run_shard(b, wd, 0, 1, b["level"], seed, [], only=i, hang=150, timeout=200)
        history = None
        if not (r["viol"] or r["crash"]):
            # the outcome may depend on what the process did before: the
            # enumeration is deterministic, so repeat all of the shard
            if (b["name"], sh) not in rerun:
                rerun[b["name"], sh] = run_shard(b, wd, sh, b["shards"], b["level"], seed, [],
                                                 timeout=max(30, budget + 60 - (time.time() - t0)))
            r = dict(rerun[b["name"], sh])
            r["viol"] = [v for v in r["viol"] if v["id"] == i]
            if r["crash"] and r["crash"][0] != i:
                r["crash"] = None
            if not (r["viol"] or r["crash"]):
                unconfirmed.append((b["name"], i, msg))
                continue
            history = [sh, b["shards"]]
        if r["viol"]:
            msg = r["viol"][0]["msg"]
        elif r["crash"]:
            msg = r["crash"][1]
        k = [w for g, w in known if fnmatch.fnmatchcase(i, g)]
        if k:
            seen_known.update(k)
            continue
        path = os.path.join(replay_dir, f"{prop}-{len(violations)}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "bin": b["name"], "level": b["level"], "id": i, "msg": msg,
                       "after_all_scenarios_of_shard": history, "how": f"python3 check.py {prop} --replay {path}"}, f, indent=1)
        violations.append((i, msg, path))

    wall = time.time() - t0
    samples = samples[:: max(1, len(samples) // 10)][:12]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": len(states), "transitions": agg["transitions"],
            "traces_validated_against_impl": agg["validated"],
            "samples": samples,
            "exhaustive": not incomplete,
            "bounds": cfg["bounds"], "oracle": cfg["oracle"],
            "builds": per, "counters": counters,
            "scenarios_enumerated": agg["index"],
            "incomplete": incomplete,
            "known_findings_seen": sorted(seen_known),
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {agg['ran']} scenarios, {len(states)} states, {agg['transitions']} transitions, "
          f"compile {tc:.1f}s, total {wall:.1f}s")
    for w in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {w}")
    for i, msg, path in violations:
        print(f"  {i}: {msg}")
        print(f"VIOLATION property={prop} replay={path}")
    shutil.rmtree(wd, ignore_errors=True)
    if violations:
        return 1
    if unconfirmed:
        for n, i, msg in unconfirmed[:10]:
            print(f"UNCONFIRMED (did not reproduce alone): {n} {i}: {msg}")
    # a listed finding may legitimately make shards incomplete only through skips
    if unconfirmed or incomplete:
        print("ERROR: exploration incomplete:", incomplete[:5])
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
