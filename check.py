#!/usr/bin/env python3
"""Runs the check of one property: builds the workload from /repo's current
tree, runs it in parallel and decides by what its oracles observed.

  check.py C02            quick (or the tier named by VERIF_TIER)
  check.py C02 thorough
  check.py --replay FILE  runs the case recorded in a replay file
  check.py --build        builds what all quick checks need (cache only)

Exit codes: 0 held on everything observed, 1 violated, 2 no answer.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
JOBS = 8

from specs import CHECKS, VARIANTS, SLICES  # noqa: E402


class NoAnswer(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash():
    """hash of everything an object file depends on"""
    h = hashlib.sha256()
    files = []
    for top in (os.path.join(REPO, "include"), os.path.join(HERE, "h"), os.path.join(HERE, "scen")):
        for d, _, fs in os.walk(top):
            files += [os.path.join(d, f) for f in fs]
    files.append(os.path.join(REPO, "ssp.hpp"))
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def compile_one(job):
    out, cmd = job
    if os.path.exists(out):
        return None
    tmp = out + ".%d.tmp" % os.getpid()
    p = sh(cmd + ["-o", tmp])
    if p.returncode != 0:
        return "%s\n%s" % (" ".join(cmd), p.stdout[-6000:])
    os.rename(tmp, out)
    return None


def generated_header():
    """directory with the single header the script generates now, None if that is the committed one"""
    p = subprocess.run([sys.executable, "-B", "script/single_header_generator.py"], cwd=REPO, stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL)
    with open(os.path.join(REPO, "ssp.hpp"), "rb") as f:
        if p.returncode != 0 or p.stdout == f.read():
            return None
    out = os.path.join(BUILD, "gen-" + hashlib.sha256(p.stdout).hexdigest()[:16])
    os.makedirs(out, exist_ok=True)
    tmp = os.path.join(out, "tmp.%d" % os.getpid())
    with open(tmp, "wb") as f:
        f.write(p.stdout)
    os.rename(tmp, os.path.join(out, "ssp.hpp"))
    return out


def object_jobs(spec, variant, th):
    v = VARIANTS[variant]
    cxx = v["cxx"]
    base = cxx + ["-std=c++17", "-w", "-I" + os.path.join(HERE, "h")]
    base += ["-I" + (REPO if v.get("single") else os.path.join(REPO, "include"))]
    objs, jobs = [], []

    def add(src, flags, tag, by=cxx):
        # flags first: an include directory given by them comes before those of the base
        rest = base[len(cxx):]
        if any(f.startswith("-std=") for f in flags):
            rest = [f for f in rest if not f.startswith("-std=")]
        cmd = by + flags + rest
        key = hashlib.sha256((" ".join(cmd) + src + th).encode()).hexdigest()[:20]
        out = os.path.join(BUILD, "obj", tag + "-" + key + ".o")
        objs.append(out)
        jobs.append((out, cmd + ["-c", src]))

    for s in spec["src"]:
        # a path below h is that of a shared source
        add(os.path.join(HERE, "scen", s), v["scen"] + spec.get("flags", []),
            os.path.basename(s).replace(".cpp", "-" + variant))
    add(os.path.join(HERE, "h", "main.cpp"), v["scen"], "main-" + variant)
    if spec.get("alloc"):
        add(os.path.join(HERE, "h", "alloc.cpp"), v["scen"], "alloc-" + variant)
    setups = os.path.join(HERE, "h", "setups.cpp")
    for k in range(SLICES if spec.get("setups") else 0):
        add(setups, v["lib"] + ["-DSLICE=%d" % k, "-DSLICES=%d" % SLICES], "setups%d-%s" % (k, variant))
    for name in spec.get("sliced", []):
        for k in range(SLICES):
            add(os.path.join(HERE, "h", name), v["lib"] + ["-DSLICE=%d" % k], name.replace(".cpp", "%d-%s" % (k, variant)))
    if spec.get("alt"):
        # a second build of the library in the same program
        alt = [f.replace("{REPO}", REPO) for f in spec["alt"]] + ["-Dh=h_alt", "-Dss=ss_alt"]
        by = spec.get("alt_cxx", cxx)
        for k in range(SLICES):
            add(setups, v["lib"] + alt + ["-DSLICE=%d" % k, "-DSLICES=%d" % SLICES], "setups%d-%s-alt" % (k, variant), by)
        trace = os.path.join(HERE, "h", "trace.cpp")
        add(trace, v["scen"] + ["-DTRACE_FN=trace_main"], "trace-" + variant)
        add(trace, v["scen"] + alt + ["-DTRACE_FN=trace_alt"], "trace-%s-alt" % variant, by)
    return objs, jobs


def build_all(wanted):
    """{property: variants} -> {(property, variant): path of the binary}"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    th = tree_hash()
    bins, jobs, per = {}, [], {}
    for pid, variants in wanted.items():
        for variant in variants:
            objs, js = object_jobs(CHECKS[pid], variant, th)
            per[pid, variant] = objs
            jobs += [j for j in js if j not in jobs]
    # the large ones first
    jobs.sort(key=lambda j: "setups" in j[0], reverse=False)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for err in ex.map(compile_one, jobs):
            if err:
                raise NoAnswer("build failed: " + err)
    for (pid, variant), objs in per.items():
        v = VARIANTS[variant]
        out = os.path.join(BUILD, "bin-%s-%s-%s" % (pid, variant, th))
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            p = sh(v["cxx"] + v["scen"] + objs + v.get("link", []) + ["-lpthread", "-o", tmp])
            if p.returncode != 0:
                raise NoAnswer("link failed: " + p.stdout[-4000:])
            os.rename(tmp, out)
        bins[pid, variant] = out
    return bins


SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=77:detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0:"
                    "allocator_may_return_null=1:hard_rss_limit_mb=3500:handle_abort=1",
    "UBSAN_OPTIONS": "exitcode=77:print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "exitcode=77:halt_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0",
}


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_bin(binary, args, scratch, timeout, prefix=()):
    """one process; returns a dict with its outcome"""
    out = os.path.join(scratch, "out.json")
    prog = os.path.join(scratch, "progress")
    for f in (out, prog):
        if os.path.exists(f):
            os.unlink(f)
    env = dict(os.environ)
    env.update(SAN_ENV)
    cmd = list(prefix) + [binary] + args + ["--out", out, "--progress", prog, "--scratch", scratch]
    log = os.path.join(scratch, "log")
    timed_out = False
    with open(log, "wb") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, preexec_fn=limits, cwd=scratch)
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            timed_out = True
            p.kill()
            p.wait()
    with open(log, "rb") as lf:
        text = lf.read().decode("latin-1")
    res = {"rc": p.returncode, "timeout": timed_out, "log": text[:20000], "data": None, "scen": None, "idx": None}
    if os.path.exists(out):
        try:
            with open(out, encoding="latin-1") as f:
                res["data"] = json.load(f)
        except ValueError:
            pass
    if os.path.exists(prog):
        with open(prog, "rb") as f:
            b = f.read(256)
        if len(b) == 256:
            res["idx"] = struct.unpack_from("<Q", b, 16)[0]
            res["scen"] = b[64:128].split(b"\0")[0].decode()
            res["done"] = struct.unpack_from("<Q", b, 24)[0]
    return res


def crash_key(res):
    """kind of a crash, or None"""
    rc = res["rc"]
    if rc == 93:
        return "does-not-end"
    if rc in (0, 7, 90, 91, 92):
        return None
    text = res["log"]
    for mark, name in (("AddressSanitizer: ", "asan:"), ("runtime error: ", "ubsan:"),
                       ("ThreadSanitizer: ", "tsan:"), ("Invalid read", "memcheck:invalid-read"),
                       ("Invalid write", "memcheck:invalid-write"),
                       ("uninitialised", "memcheck:uninitialised"),
                       ("Invalid free", "memcheck:invalid-free")):
        at = text.find(mark)
        if at >= 0:
            if mark.endswith(": "):
                rest = text[at + len(mark):].split("\n")[0]
                words = rest.split(" ")
                return name + "-".join(words[:1] if "asan" in name else words[:3])
            return name
    if rc < 0:
        return "crash:" + signal.Signals(-rc).name
    return "exit:%d" % rc


def shard_loop(binary, variant, spec, args, shard, shards, scratch, timeout):
    """runs a shard, going on behind a crashing case"""
    v = VARIANTS[variant]
    total = {"evaluations": 0, "events": 0, "distinct": 0, "features": {}, "samples": [],
             "failures": [], "fail_counts": {}}
    problems = []
    skip = []
    for attempt in range(4):
        a = args + ["--shard", str(shard), "--shards", str(shards)] + skip
        res = run_bin(binary, a, scratch, timeout, v.get("prefix", ()))
        if res["data"]:
            merge(total, res["data"])
        if res["rc"] in (0, 7) and res["data"]:
            return total, problems
        if res["rc"] in (90, 91):
            problems.append("harness error in shard %d: %s" % (shard, res["log"][-1500:]))
            return total, problems
        if res["scen"] is None or not res["scen"]:
            problems.append("worker did not start (exit %s): %s" % (res["rc"], res["log"][-1500:]))
            return total, problems
        key = crash_key(res) if not res["timeout"] else "does-not-end"
        # confirm on the case alone, then on the whole shard
        one = [x for x in args] + ["--scen", res["scen"], "--only", str(res["idx"])]
        res2 = run_bin(binary, one, scratch, max(60, timeout), v.get("prefix", ()))
        key2 = crash_key(res2) if not res2["timeout"] else "does-not-end"
        detail = res
        ok = key2 is not None and not (res["timeout"] and res2["timeout"])
        if res["timeout"] and res2["timeout"]:
            problems.append("timeout in %s#%s twice, without using processor time" % (res["scen"], res["idx"]))
            return total, problems
        if not ok and not res["timeout"]:
            # depends on earlier cases of the process
            res3 = run_bin(binary, a, scratch, timeout, v.get("prefix", ()))
            key3 = crash_key(res3)
            ok = key3 is not None and not res3["timeout"] or (key or "").startswith("tsan:")
            detail = res3 if key3 else res
        elif ok:
            key, detail = key2, res2
        if ok:
            total["fail_counts"][key] = total["fail_counts"].get(key, 0) + 1
            total["failures"].append({"key": key, "scen": res["scen"], "idx": res["idx"],
                                      "detail": "process ended: " + detail["log"][-3000:]})
            total["evaluations"] += 1
        else:
            problems.append("not reproducible: exit %s in %s#%s: %s" %
                            (res["rc"], res["scen"], res["idx"], res["log"][-800:]))
            return total, problems
        skip = ["--skip-scen", res["scen"], "--skip-to", str(res["idx"] + 1)]
    return total, problems


def merge(t, d):
    for k in ("evaluations", "events", "distinct"):
        t[k] += d[k]
    for k, n in d["features"].items():
        if k.startswith("scenario:"):
            t["features"][k] = max(t["features"].get(k, 0), n)
        else:
            t["features"][k] = t["features"].get(k, 0) + n
    for k, n in d["fail_counts"].items():
        t["fail_counts"][k] = t["fail_counts"].get(k, 0) + n
    t["samples"] += d["samples"]
    t["failures"] += d["failures"]


def known_findings(pid):
    out = {}
    path = os.path.join(HERE, "known-findings.json")
    with open(path) as f:
        for k in json.load(f)["findings"]:
            if k["property"] == pid and k["status"] == "known":
                out[k["key"]] = k["what"]
    return out


def plan(spec, tier):
    """list of (variant, unit, extra seed)"""
    return spec[tier] if tier in spec else spec["quick"]


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = CHECKS[pid]
    runs = plan(spec, tier)
    known = known_findings(pid)
    os.makedirs(BUILD, exist_ok=True)
    root = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=BUILD)
    total = {"evaluations": 0, "events": 0, "distinct": 0, "features": {}, "samples": [],
             "failures": [], "fail_counts": {}}
    problems, per_run = [], []
    seen_known = {}
    try:
        custom = spec.get("custom")
        if custom:
            import customs
            getattr(customs, custom)(sys.modules[__name__], pid, spec, tier, seed, root, total, problems, per_run)
        else:
            # a run may use the workload of another property, see run_variant
            wanted = {}
            for r in runs:
                of = wanted.setdefault(r[3] if len(r) > 3 else pid, [])
                if r[0] not in of:
                    of.append(r[0])
            bins = build_all(wanted)
            if spec.get("generated"):
                runs = runs + generated_runs(spec, runs, bins, per_run)
            t_build = time.time() - t0
            for r in runs:
                prog = r[3] if len(r) > 3 else pid
                one = run_variant(bins[prog, r[0]], r, spec, tier, seed, root, problems)
                per_run.append({"build": r[0], "workload": prog, "cases": one["evaluations"], "events": one["events"]})
                for f in one["failures"]:
                    f["program"] = prog
                    f["variant"] = r[0]
                    f["seed"] = seed + r[2] * 1000003
                    f["unit"] = r[1]
                if prog != pid and not CHECKS[prog].get("helper"):
                    one["features"] = {"cases of " + prog: one["evaluations"]}
                merge(total, one)
            total["build_s"] = round(t_build, 1)
    except NoAnswer as e:
        problems.append(str(e))
    finally:
        shutil.rmtree(root, ignore_errors=True)

    violations = []
    for f in total["failures"]:
        if f["key"] in known:
            seen_known.setdefault(f["key"], f)
        else:
            violations.append(f)
    unknown_kinds = [k for k in total["fail_counts"] if k not in known]
    if not violations and not problems:
        for name, least in spec.get("need", {}).items():
            have = total["features"].get(name, 0)
            if have < least:
                problems.append("only %d of %s observed, at least %d expected" % (have, name, least))
    write_evidence(pid, spec, tier, seed, total, per_run, len(unknown_kinds), time.time() - t0, seen_known)
    for k, f in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    if violations:
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        done = set()
        for f in violations:
            if f["key"] in done:
                continue
            done.add(f["key"])
            name = "".join(ch if ch.isalnum() else "-" for ch in f["key"])[:60]
            path = os.path.join(rdir, "%s-%s.json" % (pid, name))
            with open(path, "w") as out:
                json.dump(dict(f, property=pid), out, indent=1)
            print("%s: %s in %s#%s (%s build), %d times" %
                  (pid, f["key"], f["scen"], f["idx"], f.get("variant"), total["fail_counts"].get(f["key"], 1)))
            print("  " + f["detail"][:1500].replace("\n", "\n  "))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if problems:
        for p in problems:
            print("%s: no answer: %s" % (pid, p))
        return 2
    print("%s: held on %d cases, %d comparisons, %d distinct (%.1f s)" %
          (pid, total["evaluations"], total["events"], total["distinct"], time.time() - t0))
    return 0


def generated_runs(spec, runs, bins, per_run):
    """the runs against the header the script generates now, when that differs from the committed one"""
    gen = generated_header()
    name = spec["generated"]
    if gen is None:
        return []
    CHECKS[name] = dict(spec, helper=True, alt=[f.replace("{REPO}", gen) for f in spec["alt"]])
    more = [(v, unit, extra, name) for v, unit, extra in runs]
    try:
        bins.update(build_all({name: sorted({r[0] for r in more})}))
    except NoAnswer as e:
        # nothing to observe: no program can use it
        per_run.append({"build": "generated header", "workload": str(e)[:300], "cases": 0, "events": 0})
        return []
    return more


def run_variant(binary, r, spec, tier, seed, root, problems):
    variant, unit, extra = r[:3]
    shards = spec.get("shards", JOBS)
    timeout = 240 if tier == "quick" else 14400
    args = ["--seed", str(seed + extra * 1000003), "--unit", str(unit)]
    own = CHECKS[r[3]] if len(r) > 3 else spec
    if len(r) > 3 and not own.get("helper"):
        # only what the instrumentation reports counts
        args += ["--memory-only", "1"]
    if "cpu_limit" in own:
        args += ["--cpu-limit", str(own["cpu_limit"])]
    total = {"evaluations": 0, "events": 0, "distinct": 0, "features": {}, "samples": [],
             "failures": [], "fail_counts": {}}

    def one(k):
        scratch = os.path.join(root, "%s-%s-%d-%d" % (r[3] if len(r) > 3 else "", variant, extra, k))
        os.makedirs(scratch, exist_ok=True)
        return shard_loop(binary, variant, spec, args, k, shards, scratch, timeout)

    with cf.ThreadPoolExecutor(min(shards, JOBS)) as ex:
        for t, p in ex.map(one, range(shards)):
            merge(total, t)
            problems += p
    return total


def write_evidence(pid, spec, tier, seed, total, per_run, violations, wall, seen_known):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": total["evaluations"],
            "distinct_nontrivial": total["distinct"],
            "rule": spec["rule"],
            "samples": [s[:1200] for s in total["samples"][:5]] or ["(none sampled)"],
            "comparisons": total["events"],
            "observed": dict(sorted(total["features"].items())),
            "runs": per_run,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    if seen_known:
        ev["coverage"]["known_findings_seen"] = sorted(seen_known)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay(path):
    with open(path) as f:
        r = json.load(f)
    pid, variant = r["property"], r.get("variant")
    if not variant or variant not in VARIANTS:
        print("replay by running the check: check.py %s" % pid)
        return check(pid, "quick")
    prog = r.get("program", pid)
    if prog not in CHECKS:
        gen = generated_header()
        if gen is None:
            print("the generated header is the committed one now")
            return 0
        spec = CHECKS[pid]
        CHECKS[prog] = dict(spec, helper=True, alt=[f.replace("{REPO}", gen) for f in spec["alt"]])
    binary = build_all({prog: [variant]})[prog, variant]
    root = tempfile.mkdtemp(prefix="replay-", dir=BUILD)
    try:
        args = ["--seed", str(r["seed"]), "--unit", str(r["unit"]), "--scen", r["scen"], "--only", str(r["idx"]),
                "--verbose", "1"] + (["--memory-only", "1"] if prog != pid and not CHECKS[prog].get("helper") else [])
        res = run_bin(binary, args, root, 600, VARIANTS[variant].get("prefix", ()))
        print(res["log"])
        if res["rc"] == 0:
            print("the case passes now")
            return 0
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if len(sys.argv) >= 2 and sys.argv[1] == "--build":
        # a smoke build: the toolchain works and the framework compiles
        build_all({"C02": ["plain"]})
        print("framework builds")
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return check(pid, tier)


if __name__ == "__main__":
    try:
        code = main()
    except Exception:  # an error of the machinery is no answer
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
