#!/usr/bin/env python3
"""Decide one property: build its harness from /repo's working tree, explore, report.

usage: check.py PROPERTY [--tier quick|thorough] [--repo DIR] [--keep]
       check.py PROPERTY --replay FILE
"""
import array
import concurrent.futures
import fnmatch
import glob
import hashlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from registry import CHECKS  # noqa: E402

CORES = min(8, os.cpu_count() or 1)
REPO = os.environ.get("FERN_REPO", "/repo")
BUILD = os.environ.get("FERN_VERIF_BUILD", os.path.join(VERIF, "_build"))


class CheckError(Exception):
    pass


# --------------------------------------------------------------------- building
def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          text=True, errors="replace", timeout=timeout, **kw)


def generated_include():
    """configure.h, and the parsers that are generated from schemas."""
    out = os.path.join(BUILD, "generated")
    os.makedirs(os.path.join(out, "fern"), exist_ok=True)
    src = open(os.path.join(REPO, "source/fern/configure.h.in")).read()
    import re
    src = re.sub(r"\$\{[^}\n]*_VERSION\}(?=\s*$)", "0", src, flags=re.M)
    src = re.sub(r'\$\{\$\{PROJECT_NAME\}_(MAJOR|MINOR|PATCH)_VERSION\}', "0", src)
    src = re.sub(r"\$\{\$\{PROJECT_NAME\}[^}]*\}", "0", src)
    src = re.sub(r"\$\{[^}\n]*\}", "x", src)
    write_if_changed(os.path.join(out, "fern/configure.h"), src)
    return out


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    tmp = path + ".%d" % os.getpid()
    with open(tmp, "w") as f:
        f.write(text)
    os.rename(tmp, path)


def xsd_generate(out, rel, args):
    """Run xsdcxx on source/fern/<rel>.xsd, into out/fern/<dir>."""
    d = os.path.join(out, "fern", os.path.dirname(rel))
    os.makedirs(d, exist_ok=True)
    src = os.path.join(REPO, "source/fern", rel + ".xsd")
    cmd = ["xsdcxx"] + [a.replace("@OUT@", d) for a in args] + ["--output-dir", d, src]
    r = run(cmd)
    if r.returncode != 0:
        raise CheckError("xsdcxx failed: %s\n%s" % (" ".join(cmd), r.stderr))


def expand_sources(patterns):
    result = []
    for p in patterns:
        neg = p.startswith("!")
        if neg:
            p = p[1:]
        hits = sorted(glob.glob(os.path.join(REPO, "source/fern", p)))
        if neg:
            result = [r for r in result if r not in hits]
        else:
            result += [h for h in hits if h not in result]
    return result


def compile_one(args):
    src, flags, tag = args
    base = ["g++"] + flags
    pre = run(base + ["-E", src])
    if pre.returncode != 0:
        raise CheckError("preprocessing %s failed:\n%s" % (src, pre.stderr[-4000:]))
    key = hashlib.sha256((" ".join(flags) + "\0" + pre.stdout).encode()).hexdigest()[:32]
    obj = os.path.join(BUILD, "cache", key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.%s.tmp" % (os.getpid(), tag)
        r = run(base + ["-c", src, "-o", tmp], timeout=800)
        if r.returncode != 0:
            raise CheckError("compiling %s failed:\n%s" % (src, r.stderr[-6000:]))
        os.rename(tmp, obj)
    return obj


def build(check, kind):
    os.makedirs(os.path.join(BUILD, "cache"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    gen = generated_include()
    extra_sources = []
    if check.get("generate"):
        extra_sources = check["generate"](sys.modules[__name__], gen)
    inc = ["-I" + os.path.join(REPO, "source"), "-I" + gen, "-I" + os.path.join(VERIF, "engine"),
           "-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "harness")]
    # The flags the repository is built with: debug, assertions on.
    common = ["-std=c++17", "-g", "-w", "-fmax-errors=5", "-include", "cassert", "-include", "string", "-include", "vector"] + check.get("flags", [])
    if kind == "conc":
        code = common + ["-O1", "-fsanitize=thread"]
        engine = ["-std=c++17", "-O2", "-g", "-w", "-fno-threadsafe-statics", "-fno-builtin"]
    else:
        code = common + check.get("opt", ["-O1"]) + check.get("sanitize", ["-fsanitize=address"])
    # Backend first: the harness is slowest to compile.
    jobs = []
    for h in check["harness"]:
        jobs.append((os.path.join(VERIF, "harness", h), code + ["-DPROPERTY_" + p for p in check.get("select", [])] + inc, "h"))
    for s in expand_sources(check.get("sources", [])) + extra_sources:
        jobs.append((s, code + inc, "r"))
    if kind == "conc":
        jobs.append((os.path.join(VERIF, "engine/engine.cc"), engine + inc, "e"))
    with concurrent.futures.ThreadPoolExecutor(CORES) as pool:
        objs = list(pool.map(compile_one, jobs))
    exe = os.path.join(BUILD, "bin", "%s-%d" % (check["id"], os.getpid()))
    link = ["g++"] + objs + ["-o", exe] + (check.get("sanitize", ["-fsanitize=address"]) if kind == "seq" else []) \
        + check.get("libs", []) + ["-lpthread", "-ldl"]
    r = run(link)
    if r.returncode != 0:
        raise CheckError("linking failed:\n%s" % r.stderr[-6000:])
    return exe


# --------------------------------------------------------------------- running
def child_limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setsid()


def run_child(cmd, timeout, env=None, cwd=None, progress=None, stall=None):
    """Killed after timeout seconds, or when progress() stays the same for stall seconds."""
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0"
    if progress:
        # A loop that allocates must not take the machine down.
        e["ASAN_OPTIONS"] += ":hard_rss_limit_mb=3600"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=78"
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         env=e, preexec_fn=child_limits, cwd=cwd)
    start = time.time()
    last, since = None, start
    try:
        while True:
            now = time.time()
            try:
                step = timeout - (now - start)
                if stall:
                    step = min(step, 2.0)
                out, err = p.communicate(timeout=max(step, 0.01))
                return p.returncode, out, err, False
            except subprocess.TimeoutExpired:
                now = time.time()
                if now - start >= timeout:
                    raise
                here = progress()
                if here != last:
                    last, since = here, now
                elif now - since >= stall:
                    raise
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return p.returncode, out, err, True


def save_replay(pid, name, data):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, name))
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


def slug(text):
    return "".join(c if c.isalnum() or c in "-_" else "_" for c in text)[:80]


# Concurrency: one process per configuration (and shard).
def run_conc(check, exe, tier):
    pid = check["id"]
    rc, out, err, _ = run_child([exe, "--list", pid], 60)
    if rc != 0:
        raise CheckError("cannot list configurations: %s" % err)
    jobs = []
    budget = check.get("seconds", {"quick": 60, "thorough": 900})[tier]
    for line in out.splitlines():
        name, q, t, shards = line.split()
        bound = int(q if tier == "quick" else t)
        if bound < 0:
            continue
        n = int(shards) if tier == "thorough" else 1
        for i in range(n):
            jobs.append((name, bound, i, n))
    tmp = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    deadline = time.time() + check.get("total", {"quick": 420, "thorough": 7200})[tier]

    hangs = []

    def explore(job):
        name, bound, i, n = job
        if len(hangs) >= 3:
            # Each takes its time, and has been shown.
            return job, 0, "", "", False, None
        report = os.path.join(tmp, slug(name) + "-%d.json" % i)
        seconds = min(budget, max(2.0, deadline - time.time()))
        rc, out, err, hung = run_child(
            [exe, "--run", name, "--bound", str(bound), "--seconds", "%.1f" % seconds,
             "--shard", "%d/%d" % (i, n), "--report", report], seconds * 2 + 120)
        if hung or (rc == 3 and "hang:" in err[-1000:]):
            hangs.append(name)
        return job, rc, out, err, hung, report

    stats, violations, errors = [], [], []
    try:
        with concurrent.futures.ThreadPoolExecutor(CORES) as pool:
            for job, rc, out, err, hung, report in pool.map(explore, jobs):
                name = job[0]
                if rc == 0 and report is None:
                    continue
                if rc == 0:
                    stats.append(json.loads(out.strip().splitlines()[-1]))
                    continue
                if rc == 3 and os.path.exists(report):
                    # Replay before report.
                    data = json.load(open(report))
                    rc2, _, err2, _ = run_child([exe, "--run", name, "--replay", report, "--report", report + ".2"], 120)
                    again = json.load(open(report + ".2")) if rc2 == 3 and os.path.exists(report + ".2") else None
                    if again is None:
                        hangs.clear()
                        j2 = explore(job)
                        if j2[1] != 3:
                            errors.append("%s: failure does not reproduce: %s" % (name, data["message"]))
                            continue
                        data = json.load(open(report))
                    data["kind"] = "schedule"
                    data["property"] = pid
                    violations.append({"key": name, "text": data["message"], "replay": data})
                    continue
                if hung:
                    shown = [v for v in violations if v["text"] == "the process hangs"]
                    if not shown:
                        hangs.clear()
                    j2 = None if shown else explore(job)
                    if shown or j2[4]:
                        violations.append({"key": name, "text": "the process hangs", "replay":
                                           {"kind": "schedule", "property": pid, "config": name, "choices": [], "message": "hang"}})
                        continue
                if rc is not None and rc < 0:
                    # Killed by a signal: again?
                    j2 = explore(job)
                    if j2[1] == rc:
                        violations.append({"key": name, "text": "crash (signal %d)" % -rc, "replay":
                                           {"kind": "schedule", "property": pid, "config": name, "choices": [], "message": "crash"}})
                        continue
                errors.append("%s: rc %s: %s" % (name, rc, err[-2000:]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    coverage = {
        "states": sum(s["states"] for s in stats),
        "transitions": sum(s["transitions"] for s in stats),
        "traces_validated_against_impl": sum(s["executions"] for s in stats),
        "decision_points": sum(s["decisions"] for s in stats),
        "executions_cut_at_explored_state": sum(s["pruned"] for s in stats),
        "scenarios": len({j[0] for j in jobs}),
        "scenarios_completed_to_their_bound": len({s["config"] for s in stats if not s["capped"]}),
        "scenarios_all_schedules_exhausted": len({s["config"] for s in stats if s["exhausted"]}),
        "capped": [{"scenario": s["config"], "deviation_bound_completed": s["bound"]} for s in stats if s["capped"]],
        "deviation_bounds": {str(b): len({s["config"] for s in stats if s["bound"] == b}) for b in sorted({s["bound"] for s in stats})},
        "distinct_outcomes": sum(s["outcomes"] for s in stats),
        "max_threads": max([s["threads"] for s in stats] or [0]),
        "exhaustive": not any(s["capped"] for s in stats),
        "samples": [s for s in stats[:3]] + [s for s in sorted(stats, key=lambda x: -x["executions"])[:3]],
    }
    return coverage, violations, errors


def run_seq(check, exe, tier):
    pid = check["id"]
    tmp = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    n = check.get("shards", CORES)
    limit = check.get("limit", {"quick": 500, "thorough": 7200})[tier]
    # A case takes milliseconds (in the thorough tier, up to seconds).
    stall = {"quick": 90, "thorough": 600}[tier]

    def slot_content(path):
        try:
            with open(path, "rb") as f:
                return f.read()
        except OSError:
            return b""

    def shard(i):
        report = os.path.join(tmp, "report-%d" % i)
        slot = os.path.join(tmp, "slot-%d" % i)
        scratch = os.path.join(tmp, "scratch-%d" % i)
        os.makedirs(scratch, exist_ok=True)
        rc, out, err, hung = run_child(
            [exe, "--property", pid, "--tier", tier, "--shard", "%d/%d" % (i, n), "--report", report, "--slot", slot], limit, cwd=scratch,
            env={"FERN_SCRATCH": scratch, "FERN_REPO": REPO}, progress=lambda: slot_content(slot), stall=stall)
        return i, rc, out, err, hung, report, slot

    def one_case(suite, index, seconds):
        scratch = os.path.join(tmp, "scratch-case")
        os.makedirs(scratch, exist_ok=True)
        return run_child([exe, "--property", pid, "--tier", tier, "--case", "%s:%d" % (suite, index),
                          "--report", os.path.join(tmp, "case")], seconds, cwd=scratch, env={"FERN_SCRATCH": scratch, "FERN_REPO": REPO},
                         progress=lambda: 0, stall=seconds)

    reports, violations, errors = [], [], []
    try:
        with concurrent.futures.ThreadPoolExecutor(CORES) as pool:
            for i, rc, out, err, hung, report, slot in pool.map(shard, range(n)):
                if rc in (0, 3) and not hung and os.path.exists(report):
                    r = json.load(open(report))
                    reports.append(r)
                    for v in r["violations"]:
                        violations.append(v)
                    continue
                # Crash or hang: attribute it to a case, and reproduce that.
                raw = open(slot, "rb").read() if os.path.exists(slot) else b""
                if len(raw) < 136:
                    errors.append("shard %d: rc %s: %s" % (i, rc, err[-3000:]))
                    continue
                suite = raw[:128].split(b"\0")[0].decode(errors="replace")
                index = int.from_bytes(raw[128:136], "little")
                text = raw[136:].split(b"\0")[0].decode(errors="replace")
                if any(v["key"].startswith(suite + "/") and v["key"].endswith(("/hang", "/crash")) for v in violations):
                    # Shown for this suite already.
                    continue
                rc2, out2, err2, hung2 = one_case(suite, index, 90)
                what = None
                if hung2:
                    what = "hang"
                elif rc2 not in (0, 3, 2):
                    what = "crash"
                detail = ""
                for line in (err2 or err).splitlines():
                    if "ERROR: AddressSanitizer" in line or "Assertion" in line or "terminate called" in line or "runtime error" in line or "what():" in line:
                        detail += " " + line.strip()[:300]
                if what is None and rc in (77, 78) or (what is None and rc is not None and rc < 0 and not hung):
                    # Reproduce the whole shard: the crash may depend on earlier cases.
                    j = shard(i)
                    if j[1] == rc:
                        what = "crash"
                elif what is None and hung and shard(i)[4]:
                    what = "hang"
                if what:
                    violations.append({"key": "%s/%s" % (suite, what), "suite": suite, "index": index,
                                       "text": "%s in case %s%s" % (what, text, detail)})
                else:
                    errors.append("shard %d: rc %s hung %s in %s:%d %s: %s" % (i, rc, hung, suite, index, text, err[-3000:]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    merged = {}
    for v in violations:
        if v["key"] not in merged or v["index"] < merged[v["key"]]["index"]:
            merged[v["key"]] = v
    violations = []
    for v in merged.values():
        v["replay"] = {"kind": "case", "property": pid, "tier": tier, "suite": v["suite"], "index": v["index"], "text": v["text"]}
        violations.append(v)
    suites = {}
    outcomes = {}
    for r in reports:
        suites = {**suites, **r["suites"]}
        for k, c in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + c
    coverage = {"suites": suites, "outcomes": outcomes,
                "samples": [s for r in reports[:3] for s in r["samples"][:3]],
                "exhaustive": True}
    if check["level"] == "model_checking":
        coverage.update({"states": sum(r["states"] for r in reports),
                         "transitions": sum(r["transitions"] for r in reports),
                         "traces_validated_against_impl": sum(r["cases"] for r in reports),
                         "comparisons": sum(r["evaluations"] for r in reports)})
    else:
        coverage.update({"evaluations": sum(r["evaluations"] for r in reports),
                         "cases": sum(r["cases"] for r in reports),
                         "distinct_nontrivial": sum(r["states"] for r in reports),
                         "rule": check["rule"]})
    return coverage, violations, errors


# --------------------------------------------------------------------- main
def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path))["findings"] if f["property"] == pid and f.get("status") == "known"]


def main():
    global REPO
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]; i += 2
        elif args[i] == "--repo":
            REPO = args[i + 1]; i += 2
        elif args[i] == "--replay":
            replay = args[i + 1]; i += 2
        else:
            print("unknown argument", args[i]); return 2
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    check = dict(CHECKS[pid]); check["id"] = pid
    kinds = [k for k in ("conc", "seq") if k in check["kind"]]
    t0 = time.time()
    coverage, violations, errors = {}, [], []
    try:
        for kind in kinds:
            sub = dict(check)
            if isinstance(check["kind"], dict):
                sub.update(check["kind"][kind])
            exe = build(sub, kind)
            built = time.time() - t0
            try:
                if replay:
                    data = json.load(open(replay))
                    if data["kind"] == "schedule" and kind == "conc":
                        r = subprocess.run([exe, "--run", data["config"], "--replay", replay]); return 1 if r.returncode else 0
                    if data["kind"] == "case" and kind == "seq":
                        scratch = os.path.join(BUILD, "scratch-%d" % os.getpid()); os.makedirs(scratch, exist_ok=True)
                        r = subprocess.run([exe, "--property", pid, "--tier", data["tier"], "--case", "%s:%d" % (data["suite"], data["index"])],
                                           cwd=scratch, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", FERN_SCRATCH=scratch, FERN_REPO=REPO))
                        shutil.rmtree(scratch, ignore_errors=True)
                        return 1 if r.returncode else 0
                    continue
                c, v, e = (run_conc if kind == "conc" else run_seq)(sub, exe, tier)
            finally:
                if os.path.exists(exe):
                    os.remove(exe)
            if len(kinds) > 1:
                # Counts of the exploration of schedules lead; those of the
                # enumeration of inputs are kept apart.
                coverage["inputs" if kind == "seq" else "schedules"] = c
                if kind == kinds[0]:
                    coverage.update({k: c[k] for k in ("states", "transitions", "traces_validated_against_impl", "samples", "evaluations", "distinct_nontrivial", "rule") if k in c})
            else:
                coverage.update(c)
            coverage["build_s"] = round(built, 1)
            violations += v; errors += e
    except CheckError as e:
        print("ERROR:", e)
        return 2
    known = known_findings(pid)
    new, seen = [], set()
    for v in violations:
        f = next((f for f in known if any(fnmatch.fnmatchcase(v["key"], k) for k in f["keys"])), None)
        if f:
            seen.add(f["what"])
        else:
            new.append(v)
    for what in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    evidence = {"property": pid, "tier": tier, "seed": seed, "level": check["level"], "coverage": coverage,
                "assumptions": check.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (pid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    for v in new[:10]:
        path = save_replay(pid, slug(v["key"]), v["replay"])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s: %s" % (v["key"], v["text"][:1500]))
    if new:
        return 1
    if errors:
        for e in errors[:5]:
            print("ERROR:", e)
        return 2
    print("OK property=%s tier=%s wall=%.1fs %s" % (pid, tier, time.time() - t0, json.dumps(
        {k: v for k, v in coverage.items() if isinstance(v, (int, float, bool))})))
    return 0


if __name__ == "__main__":
    sys.exit(main())
