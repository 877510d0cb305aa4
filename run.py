#!/usr/bin/env python3
"""Decide one property by bounded-exhaustive exploration of the real code in /repo/src.

  run.py ID                 quick tier (or VERIF_TIER)
  run.py ID --thorough      thorough tier
  run.py --replay FILE      re-execute the recorded failing case only

Every build is made from /repo's current working tree in a scratch directory which is removed.
Exit 0: held on everything explored.  Exit 1: VIOLATION line(s).  Exit 2: error of the check.
"""
import concurrent.futures as cf
import json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from props import PROPS

CXX = "g++"
BUDGET = 200   # s; every quick section needs less than 20 s
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
BASE = ["-std=c++14", "-g0", "-w", "-fopenmp", "-I" + REPO + "/src", "-I" + VERIF + "/harness"]


def build_cmd(b, src, exe):
    # uninitialised local variables get a repeatable absurd value instead of whatever the stack holds
    flags = list(BASE) + ["-O" + str(b.get("opt", 1)), "-ftrivial-auto-var-init=pattern"]
    if b.get("san", True):
        flags += SAN
    return [CXX] + flags + b.get("flags", []) + [src, "-o", exe] + b.get("libs", [])


WRAP = ["memcpy", "memmove", "memset", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort",
        "pthread_mutex_lock", "pthread_mutex_unlock"]


def compile_build(b, tmp):
    exe = os.path.join(tmp, b["name"])
    src = os.path.join(VERIF, "harness", b["src"])
    if b.get("sched"):
        # -fsanitize=thread only for its callbacks: harness/explore.cpp implements them and the OpenMP runtime
        cmds = [[CXX] + BASE + ["-O1", "-fsanitize=thread"] + b.get("flags", []) + ["-c", src, "-o", exe + ".o"],
                [CXX, "-std=c++14", "-O2", "-g0", "-w", "-c", os.path.join(VERIF, "harness", "explore.cpp"), "-o", exe + ".x.o"],
                [CXX, exe + ".o", exe + ".x.o", "-pthread", "-Wl," + ",".join("--wrap=" + w for w in WRAP), "-o", exe]]
    else:
        cmds = [build_cmd(b, src, exe)]
    for c in cmds:
        r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return b, None, r.stdout
    return b, exe, ""


def run_one(exe, section, out, thorough, only=0, stall=30, limit=3000):
    cmd = [exe, "--section", section, "--out", out, "--stall", str(stall)]
    if thorough:
        cmd.append("--thorough")
    else:
        cmd += ["--budget", str(BUDGET)]
    if only:
        cmd += ["--only", str(only)]
    err = out + ".err"
    env = dict(os.environ)
    env["OMP_NUM_THREADS"] = env.get("OMP_NUM_THREADS", "2")
    with open(err, "wb") as e:
        try:
            subprocess.run(cmd, stdout=e, stderr=e, timeout=limit, env=env, cwd=os.path.dirname(exe))
        except subprocess.TimeoutExpired:
            return None, "section exceeded %d s" % limit
    recs = []
    if os.path.exists(out):
        with open(out, errors="replace") as f:
            for line in f:
                line = line.strip()
                if line:
                    try:
                        recs.append(json.loads(line))
                    except ValueError:
                        recs.append({"kind": "garbled", "line": line[:300]})
    with open(err, errors="replace") as f:
        tail = f.read()[-3000:]
    return recs, tail


def load_known(prop):
    known = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k.get("property") == prop and k.get("status", "known") == "known":
                    known.append(k)
    return known


def is_known(known, build, section, rec):
    for k in known:
        if k["section"] == section and k["tag"] == rec["tag"] and rec["case"] in k["cases"] \
                and k.get("build", build) == build:
            return k
    return None


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv[2:]
    tier = "thorough" if thorough else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    P = PROPS[prop]
    builds = [b for b in P["builds"] if thorough or not b.get("thorough_only")]
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return decide(prop, P, builds, tmp, thorough, tier, seed, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, P, builds, tmp, thorough, tier, seed, t0):
    jobs = []
    with cf.ThreadPoolExecutor(8) as ex:
        for b, exe, log in ex.map(lambda b: compile_build(b, tmp), builds):
            if exe is None:
                sys.stdout.write("CHECK-ERROR property=%s build %s does not compile\n%s\n" % (prop, b["name"], "\n".join([l for l in log.splitlines() if "error" in l][:12]) + "\n" + log[-600:]))
                return 2
            names = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True).stdout.split()
            want = b.get("sections")
            for n in names:
                if want is None or any(n == w or (w.endswith("*") and n.startswith(w[:-1])) for w in want):
                    jobs.append((b, exe, n))
    if not jobs:
        print("CHECK-ERROR property=%s no sections" % prop)
        return 2
    results = []
    with cf.ThreadPoolExecutor(8) as ex:
        futs = {}
        for i, (b, exe, n) in enumerate(jobs):
            out = os.path.join(tmp, "out%d" % i)
            futs[ex.submit(run_one, exe, n, out, thorough, 0, b.get("stall", 30))] = (b, exe, n, i)
        for f in cf.as_completed(futs):
            results.append((futs[f], f.result()))
    results.sort(key=lambda r: r[0][3])

    known = load_known(prop)
    viol, kn, errors = [], [], []
    tot = dict(cases=0, checks=0, states=0)
    per, samples, counters = [], [], {}
    for (b, exe, n, i), (recs, tail) in results:
        if recs is None:
            errors.append("%s/%s: %s" % (b["name"], n, tail))
            continue
        stats = [r for r in recs if r["kind"] == "stats"]
        bad = [r for r in recs if r["kind"] in ("fail", "crash", "hang")]
        if not stats and not bad:
            errors.append("%s/%s: no result\n%s" % (b["name"], n, tail))
            continue
        for st in stats:
            for k in tot:
                tot[k] += st[k]
            for k, v in st["counters"].items():
                counters[k] = counters.get(k, 0) + v
            per.append({"build": b["name"], "section": n, "traces": st["cases"], "comparisons": st["checks"],
                        "distinct_states": st["states"], "failures": st["fails"]})
            for s in st["samples"][-2:]:
                if len(samples) < 40:
                    samples.append("%s/%s: %s" % (b["name"], n, s))
        seen_tags = set()
        if any(r["tag"] != "budget" for r in bad):
            bad = [r for r in bad if r["tag"] != "budget"]
        for r in bad:
            k = is_known(known, b["name"], n, r)
            if k:
                kn.append((k, r))
                continue
            if r["tag"] in seen_tags:
                continue
            seen_tags.add(r["tag"])
            # three confirmed violations decide the check: stalled cases are slow to confirm
            if len(viol) >= (1 if r["tag"] == "budget" else 3 if r["kind"] == "hang" else 40):
                continue
            # replay alone before believing it
            out = os.path.join(tmp, "re%d_%d" % (i, len(viol)))
            rr, rtail = (None, "") if r["tag"] == "budget" else run_one(exe, n, out, thorough, r["caseno"], 45 if r["kind"] == "hang" else b.get("stall", 30))
            same = rr is not None and any(
                x["kind"] in ("fail", "crash", "hang") and x["tag"] == r["tag"] and x["caseno"] == r["caseno"] for x in rr)
            if not same:
                # not reproducible alone: does it need the history of the cases before it?
                rr, rtail = run_one(exe, n, out + "h", thorough, 0, 45 if r["kind"] == "hang" else b.get("stall", 30))
                same = rr is not None and any(
                    x["kind"] in ("fail", "crash", "hang") and x["tag"] == r["tag"]
                    and (x["caseno"] == r["caseno"] or r["tag"] == "budget") for x in rr)
                r["needs_history"] = True
            if not same:
                errors.append("%s/%s case %d (%s) tag %s: not reproduced on replay" % (b["name"], n, r["caseno"], r["case"], r["tag"]))
                continue
            viol.append((b, n, r, rtail if r["kind"] == "crash" else ""))

    for k, r in {id(k): (k, r) for k, r in kn}.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    for j, (b, n, r, tail) in enumerate(viol):
        path = os.path.join(rdir, "%s_%s_%s_%d.json" % (prop, b["name"], n, j))
        with open(path, "w") as f:
            json.dump({"property": prop, "build": b["name"], "section": n, "tier": tier, **r,
                       "sanitizer": tail, "replay_cmd": "python3 %s/run.py --replay %s" % (VERIF, path)}, f, indent=1)
        print("  %s/%s case %d [%s] %s: %s" % (b["name"], n, r["caseno"], r["tag"], r["case"], r["detail"]))
        if j < 12:
            print("VIOLATION property=%s replay=%s" % (prop, path))
    for e in errors:
        print("CHECK-ERROR property=%s %s" % (prop, e))

    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": P.get("level", "model_checking"),
        "coverage": {
            "states": tot["states"], "transitions": tot["checks"],
            "traces_validated_against_impl": tot["cases"],
            "exhaustive": not errors and not counters.get("explorations stopped at the cap"),
            "rule": P["rule"],
            "samples": samples, "sections": per, "counters": counters,
            "what_the_counts_are": "states: distinct observed (operation, result) states; transitions: library "
            "operations executed on the real code and compared with the reference; traces: enumerated executions run to completion.",
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: traces=%d transitions=%d states=%d violations=%d known=%d errors=%d %.1fs" % (
        prop, tier, tot["cases"], tot["checks"], tot["states"], len(viol), len(kn), len(errors), time.time() - t0))
    if viol:
        return 1
    return 2 if errors else 0


def replay(path):
    r = json.load(open(path))
    P = PROPS[r["property"]]
    b = [x for x in P["builds"] if x["name"] == r["build"]][0]
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        _, exe, log = compile_build(b, tmp)
        if exe is None:
            print(log)
            return 2
        recs, tail = run_one(exe, r["section"], os.path.join(tmp, "o"), r["tier"] == "thorough",
                             0 if r.get("needs_history") else r["caseno"], 60)
        hit = [x for x in (recs or []) if x["kind"] in ("fail", "crash", "hang")]
        for x in hit:
            print("%s [%s] %s: %s" % (x["kind"], x["tag"], x["case"], x["detail"]))
        if hit and any(x["kind"] == "crash" for x in hit):
            print(tail)
        if hit:
            print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1 if hit else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
