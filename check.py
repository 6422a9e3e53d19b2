#!/usr/bin/env python3
"""Builds and runs one check against /repo's working tree.

  check.py ID [--tier quick|thorough]   run the check; exit 0 (held), 1 (VIOLATION), 2 (no answer)
  check.py ID --replay FILE             re-run the one execution recorded in a replay file
"""
import argparse, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")

BASE = ["-std=c++17", "-g1", "-I" + os.path.join(HERE, "lib"), "-I" + os.path.join(REPO, "include")]
OPT = BASE + ["-O2"]
SAN = BASE + ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]

sys.path.insert(0, HERE)
import registry  # noqa: E402


def cpu_has(flag):
    try:
        with open("/proc/cpuinfo") as f:
            for line in f:
                if line.startswith("flags"):
                    return flag in line.split()
    except OSError:
        pass
    return False


def compile_one(src, cfg, out):
    flags = SAN if cfg.get("san") else OPT
    std = cfg.get("std")
    if std:
        flags = [("-std=" + std) if f.startswith("-std=") else f for f in flags]
    cxx = [cfg.get("cxx", "g++")]
    objs = []
    # translation units built with flags of their own and linked into the harness
    started = []
    for n, u in enumerate(cfg.get("units", [])):
        if u.get("needs_cpu") and not cpu_has(u["needs_cpu"]):
            continue
        obj = "%s.%d.o" % (out, n)
        cmd = cxx + flags + u["flags"] + ["-c", os.path.join(os.path.dirname(src), u["src"]), "-o", obj]
        started.append((u, obj, cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for u, obj, cmd, p in started:
        text = p.communicate()[0]
        if p.returncode == 0:
            objs.append(obj)
        elif not u.get("if_it_compiles"):
            return p.returncode, " ".join(cmd), text
    # what lies behind the public interface is looked at only as long as it is there
    for extra in ([cfg["if_it_compiles"]] if "if_it_compiles" in cfg else []) + [[]]:
        cmd = cxx + flags + cfg.get("flags", []) + extra + [src] + objs + ["-o", out]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            break
    return p.returncode, " ".join(cmd), p.stdout


def load_known(pid):
    """input -> description of the findings listed for this property."""
    known = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            if line.startswith("KNOWN-FINDING:"):
                body = line[len("KNOWN-FINDING:"):].strip()
                prop, rest = body.split(" ", 1)
                if prop == "property=" + pid and " input=" in " " + rest:
                    what, key = rest.rsplit(" input=", 1)
                    known[json.loads(key)] = what
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep")
    ap.add_argument("--config")
    a = ap.parse_args()
    spec = registry.CHECKS[a.id]
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    cfgs = [c for c in spec["configs"] if (tier == "thorough" or not c.get("thorough_only"))
            and (tier == "quick" or not c.get("quick_only"))]
    cfgs = [c for c in cfgs if not c.get("needs_cpu") or cpu_has(c["needs_cpu"])]
    replay = None
    if a.replay:
        replay = json.load(open(a.replay))
        cfgs = [c for c in spec["configs"] if c["name"] == replay["config"]]
    if a.config:
        cfgs = [c for c in cfgs if c["name"] == a.config]
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % a.id)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:hard_rss_limit_mb=3500:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    try:
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda c: compile_one(os.path.join(HERE, "checks", c.get("src", a.id + ".cpp")), c,
                                                    os.path.join(tmp, c["name"])), cfgs))
        for c, (rc, cmd, out) in zip(cfgs, res):
            if rc:
                print("build of the harness failed (%s): %s\n%s" % (c["name"], cmd, out[-6000:]))
                return 2
        if replay:
            args = [os.path.join(tmp, cfgs[0]["name"]), "--only", str(replay["index"])]
            if replay["tier"] == "thorough":
                args.append("--thorough")
            args += cfgs[0].get("args", [])
            return subprocess.run(args, env=env).returncode
        tot = {"executed": 0, "steps": 0, "nontrivial": 0, "states": 0}
        per, samples, failures, complete = [], [], [], True
        known = load_known(a.id)
        for c in cfgs:
            of = os.path.join(tmp, c["name"] + ".json")
            args = [os.path.join(tmp, c["name"]), "--out", of, "--shards", "8"] + c.get("args", [])
            if tier == "thorough":
                args.append("--thorough")
            p = subprocess.run(args, env=env)
            if p.returncode or not os.path.exists(of):
                print("harness %s ended with %d" % (c["name"], p.returncode))
                return 2
            o = json.load(open(of, encoding="utf-8"))
            again = c["name"] == "asan-ubsan" and any(d["name"] == "plain" for d in cfgs)  # the same states once more
            for k in tot:
                tot[k] += 0 if k == "states" and again else o[k]
            per.append({"config": c["name"], **{k: o[k] for k in ("executed", "steps", "nontrivial", "states", "wall_s", "complete")}})
            complete = complete and o["complete"]
            samples += o["samples"][: max(4, 16 // len(cfgs))]
            for f in o["failures"]:
                failures.append((c["name"], f))
            if any(f[2] not in known for f in o["failures"]):
                break  # an answer
        # checks whose configurations must agree with each other compare their digests here
        fresh, listed = [], {}
        for cfg, f in failures:
            if f[2] in known:
                listed[f[2]] = known[f[2]]
            else:
                fresh.append((cfg, f))
        for key, what in listed.items():
            print("KNOWN-FINDING: property=%s %s" % (a.id, what))
        if not fresh and not complete:
            print("the exploration did not complete")
            return 2
        ev = {
            "property": a.id, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec["level"],
            "coverage": {
                "states": tot["states"], "transitions": tot["steps"],
                "traces_validated_against_impl": tot["executed"],
                "nontrivial_traces": tot["nontrivial"],
                "rule": spec["rule"], "bounds": spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
                "per_config": per, "samples": samples[:24], "exhaustive": complete and not fresh,
            },
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", a.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d executions, %d transitions, %d states, %d nontrivial, %.1f s" %
              (a.id, tier, tot["executed"], tot["steps"], tot["states"], tot["nontrivial"], time.time() - t0))
        if fresh:
            cfg, f = min(fresh, key=lambda x: (len(x[1][2]), x[1][0]))
            rp = os.path.join(HERE, "evidence", "replay_%s.json" % a.id)
            with open(rp, "w") as fh:
                json.dump({"property": a.id, "tier": tier, "config": cfg, "index": f[0], "kind": f[1], "input": f[2],
                           "detail": f[3], "others": [x[1][1:3] for x in fresh[:20]]}, fh, indent=1)
            print("%s: %s\n%s" % (f[1], f[2], f[3]))
            print("VIOLATION property=%s replay=%s" % (a.id, rp))
            return 1
        return 0
    finally:
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
