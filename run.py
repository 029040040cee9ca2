#!/usr/bin/env python3
"""run.py <property id> [--seed N] [--tier quick|thorough]
   run.py --replay <file>

Runs the monitors that decide one property against the code in /repo.
Exit 0: held on everything explored; 1 + VIOLATION line: broken; other: error of the check.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import build  # noqa: E402
from props import PROPS  # noqa: E402

VERIF = build.VERIF
JOBS = 8

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:max_malloc_fill_size=1073741824:"
                    "malloc_fill_byte=255:max_free_fill_size=1048576:free_fill_byte=125:"
                    "detect_stack_use_after_return=1:strict_init_order=1:"
                    "new_delete_type_mismatch=1:allocator_may_return_null=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:second_deadlock_stack=1:suppressions=" +
                    os.path.join(VERIF, "lib", "tsan.supp"),
}
# Uses of uninitialized memory, also as bytes of a file
MEMCHECK = ["valgrind", "-q", "--vgdb=no", "--fair-sched=yes", "--exit-on-first-error=yes",
            "--error-exitcode=66", "--num-callers=20",
            "--suppressions=" + os.path.join(VERIF, "lib", "memcheck.supp")]


class Result:
    def __init__(self):
        self.lock = threading.Lock()
        self.fails = []      # dict(key, case, text, job, desc)
        self.ends = 0
        self.sigs = set()
        self.checks = 0
        self.stats = {}
        self.samples = []
        self.errors = []
        self.crashes = 0
        self.stop = threading.Event()  # enough was seen
        self.notes = []


class Crash(Exception):
    pass


def parse(path):
    """-> (cases {idx: desc}, fails, ends, stats, samples, finished, open case)"""
    begun, fails, ends, stats, samples, finished = {}, [], [], {}, [], False
    opened = None
    try:
        text = open(path, "rb").read().decode("utf-8", "replace")
    except FileNotFoundError:
        text = ""
    for line in text.split("\n"):
        if line.startswith("BEGIN "):
            _, idx, desc = (line + " ").split(" ", 2)
            opened = int(idx)
            begun[opened] = desc.strip()
        elif line.startswith("FAIL "):
            parts = line.split(" ", 3)
            if len(parts) == 4:
                fails.append((int(parts[1] or -1), parts[2], parts[3]))
        elif line.startswith("END "):
            p = line.split()
            if len(p) == 5:
                ends.append((int(p[1]), p[2] == "1", p[3], int(p[4])))
                opened = None
        elif line.startswith("STAT "):
            p = line.split()
            stats[p[1]] = float(p[2])
        elif line.startswith("SAMPLE "):
            samples.append(line[7:])
        elif line.startswith("FINISHED"):
            finished = True
    return begun, fails, ends, stats, samples, finished, opened


def summarize_log(log):
    try:
        t = open(log, "rb").read().decode("utf-8", "replace")
    except OSError:
        return "no output"
    m = re.search(r"(==\d+== (?:Cond|Use of|Syscall|Invalid|Jump|Source|Mismatch|Argument).*|WARNING: ThreadSanitizer:.*|ERROR: AddressSanitizer:.*|.*runtime error:.*|"
                  r".*Assertion.*failed.*|terminate called.*)", t)
    if m:
        tail = t[m.start():m.start() + 3500]
        lines = [x.strip() for x in tail.split("\n") if x.strip()]
        frames = [x for x in lines if re.match(r"(#\d+|==\d+== +(at|by)) ", x)]
        repo = [x for x in frames if build.REPO + "/" in x or "dyscostman" in x or "aocommon" in x]
        what = [x for x in lines[1:4] if x.startswith("what()")]
        return " | ".join([lines[0][:300]] + what + [x[:200] for x in (repo[:3] or frames[:3])])
    lines = [x.strip() for x in t.split("\n") if x.strip()]
    return " | ".join(lines[-3:])[:600] or "no output"


STALL = {"quick": 100, "thorough": 300}  # seconds without any progress


def run_cmd(cmd, env, log, timeout, progress=None, stall=None, stop=None):
    """Returns the exit status, None when the command made no progress (its
    result file did not grow) or took too long, "stopped" when asked to stop."""
    with open(log, "wb") as lf:
        p = subprocess.Popen(cmd, env=env, stdout=lf, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL, start_new_session=True)
        t0 = last = time.time()
        size, why = -1, None
        while True:
            try:
                return p.wait(0.25)
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            if progress:
                try:
                    n = os.stat(progress).st_size
                except OSError:
                    n = -1
                if n != size:
                    size, last = n, now
            if stop is not None and stop.is_set():
                why = "stopped"
            elif now - t0 > timeout or (stall and now - last > stall):
                why = "late"
            if why:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                return "stopped" if why == "stopped" else None


def job_cmd(job, bins, pid, seed, tier, a, b, scratch, out):
    binary = bins[job["bin"]]
    cmd = MEMCHECK if job.get("memcheck") else []
    cmd = cmd + [binary, job["mode"], "--prop", pid, "--seed", str(seed), "--from", str(a),
           "--to", str(b), "--tier", "1" if tier == "thorough" else "0",
           "--dir", scratch, "--out", out]
    extra = job.get("extra")
    if extra == "tools":
        t = bins[job["tools"]]
        cmd += ["--extra", t["dscompress"] + ":" + t["decompress"]]
    elif extra == "golden":
        cmd += ["--extra", os.path.join(VERIF, "golden")]
    elif extra:
        cmd += ["--extra", extra]
    return cmd


def job_env(job):
    env = dict(os.environ)
    env.update(SAN_ENV)
    env.update(job.get("env", {}))
    if job.get("memcheck"):
        env["VT_TOOL_PREFIX"] = "\n".join(MEMCHECK)
    return env


def run_chunk(job, bins, pid, seed, tier, a, b, base, res, timeout):
    """Runs the cases [a,b), restarting after a crash or a hang."""
    tag = "%s.%s.%d%s" % (job["bin"], job["mode"], a, "m" if job.get("memcheck") else "")
    hangs = 0
    stall = STALL[tier]
    while a < b and not res.stop.is_set():
        scratch = os.path.join(base, tag)
        shutil.rmtree(scratch, ignore_errors=True)
        os.makedirs(scratch)
        out, log = os.path.join(base, tag + ".out"), os.path.join(base, tag + ".log")
        cmd = job_cmd(job, bins, pid, seed, tier, a, b, scratch, out)
        rc = run_cmd(cmd, job_env(job), log, timeout, out, stall, res.stop)
        begun, fails, ends, stats, samples, finished, opened = parse(out)
        with res.lock:
            for idx, key, text in fails:
                res.fails.append(dict(key=key, case=idx, text=text, job=job,
                                      desc=begun.get(idx, "")))
            res.ends += len(ends)
            for idx, nontrivial, sig, checks in ends:
                res.checks += checks
                if nontrivial:
                    res.sigs.add((job["bin"], job["mode"], sig))
            for k, v in stats.items():
                res.stats[k] = res.stats.get(k, 0) + v
            res.samples += samples
        if (rc == 0 and finished) or rc == "stopped":
            break
        if rc == 2:
            res.errors.append("harness error of %s: %s" % (" ".join(cmd), summarize_log(log)))
            break
        case = opened
        if case is None:  # after the last case: e.g. in a static destructor
            case = max([e[0] for e in ends], default=a)
        if rc is None or rc == -signal.SIGKILL:
            if rc is not None:
                res.errors.append("killed (memory?): %s" % " ".join(cmd))
                break
            # A hang: confirm it by running that case once more on its own
            out2, log2 = out + ".again", log + ".again"
            shutil.rmtree(scratch, ignore_errors=True)
            os.makedirs(scratch)
            cmd2 = job_cmd(job, bins, pid, seed, tier, case, case + 1, scratch, out2)
            rc2 = run_cmd(cmd2, job_env(job), log2, stall, stop=res.stop)
            if rc2 is None:
                with res.lock:
                    res.fails.append(dict(key=pid + ":hang", case=case, job=job,
                                          desc=begun.get(case, ""),
                                          text="no progress: the case did not finish in %d s, "
                                               "twice" % stall))
                res.stop.set()
                break
            if rc2 == "stopped":
                break
            hangs += 1
            if hangs > 1:
                res.errors.append("inconclusive: %s takes too long" % " ".join(cmd))
                break
            res.notes.append("case %d timed out once" % case)
        else:
            with res.lock:
                res.crashes += 1
                res.fails.append(dict(key=pid + ":crash", case=case, job=job,
                                      desc=begun.get(case, ""),
                                      text="exit status %d: %s" % (rc, summarize_log(log))))
                if res.crashes >= 6:
                    res.stop.set()
                    break
        a = case + 1
    shutil.rmtree(os.path.join(base, tag), ignore_errors=True)


def load_known():
    known = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                k = json.loads(line)
                if k.get("status") == "known":
                    known.append(k)
    return known


def replay(path):
    r = json.load(open(path))
    bins = build.build(r["bins"])
    base = tempfile.mkdtemp(prefix="vt-replay-")
    try:
        out, log = os.path.join(base, "out"), os.path.join(base, "log")
        scratch = os.path.join(base, "s")
        os.makedirs(scratch)
        rc = run_cmd(job_cmd(r["job"], bins, r["property"], r["seed"], r["tier"], r["case"],
                             r["case"] + 1, scratch, out), job_env(r["job"]), log, 600, out, 120)
        print("exit status:", rc)
        for f in (out, log):
            if os.path.exists(f):
                print(open(f, "rb").read().decode("utf-8", "replace"))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return 0


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    args = sys.argv[1:]
    pid = args.pop(0)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    scale = 1.0
    while args:
        a = args.pop(0)
        if a == "--seed":
            seed = int(args.pop(0))
        elif a == "--tier":
            tier = args.pop(0)
        elif a == "--scale":
            scale = float(args.pop(0))
        else:
            print("unknown argument", a)
            return 2
    if pid == "--build":
        build.build(list(build.BINARIES))
        return 0
    prop = PROPS[pid]
    t0 = time.time()
    names = []
    for job in prop["jobs"]:
        for n in (job["bin"], job.get("tools")):
            if n and n not in names and (tier == "thorough" or job.get("quick", 1)):
                names.append(n)
    try:
        bins = build.build(names)
    except build.BuildError as e:
        print("ERROR: the build failed\n%s" % e)
        return 3
    tb = time.time() - t0
    res = Result()
    base = tempfile.mkdtemp(prefix="vt-%s-" % pid)
    try:
        tasks = []
        for job in prop["jobs"]:
            n = job.get(tier, 0)
            if not n:
                continue
            n = max(1, int(n * scale))
            chunk = job.get("chunk") or max(1, -(-n // (JOBS * 3)))
            timeout = job.get("timeout", 420 if tier == "quick" else 7200)
            for a in range(0, n, chunk):
                tasks.append((job, a, min(n, a + chunk), timeout))
        with cf.ThreadPoolExecutor(JOBS) as pool:
            fs = [pool.submit(run_chunk, job, bins, pid, seed, tier, a, b, base, res, timeout)
                  for job, a, b, timeout in tasks]
            for f in fs:
                f.result()
    finally:
        shutil.rmtree(base, ignore_errors=True)

    # Only what refutes this property counts; the modes also observe others
    own, inconclusive = [], []
    for f in res.fails:
        if f["key"] == "ANY:inconclusive":
            inconclusive.append(f)
        elif f["key"].startswith(pid + ":") or f["key"].startswith("ANY:"):
            own.append(f)
    others = {}
    for f in res.fails:
        if not f["key"].startswith(pid + ":") and not f["key"].startswith("ANY:"):
            others[f["key"]] = others.get(f["key"], 0) + 1
    if others:
        print("note: seen by monitors of other properties: " +
              ", ".join("%s (%d)" % x for x in sorted(others.items())))
    known = load_known()
    violations, seen_known = [], {}
    for f in own:
        hit = None
        for k in known:
            if k["property"] == pid and re.fullmatch(k["key"], f["key"]) and \
                    re.search(k["match"], f["desc"] + " # " + f["text"]):
                hit = k
                break
        if hit:
            seen_known.setdefault(hit["id"], hit)
        else:
            violations.append(f)
    for k in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    rdir = os.path.join(VERIF, "replays")
    reported = {}
    for f in violations:
        reported.setdefault(f["key"], []).append(f)
    if violations:
        os.makedirs(rdir, exist_ok=True)
    for n, (key, fs) in enumerate(sorted(reported.items())):
        f = fs[0]
        path = os.path.join(rdir, "%s.%d.json" % (pid, n))
        json.dump(dict(property=pid, seed=seed, tier=tier, case=f["case"], job=f["job"],
                       bins=[x for x in (f["job"]["bin"], f["job"].get("tools")) if x],
                       key=key, text=f["text"], desc=f["desc"]), open(path, "w"), indent=1)
        print("%s (%d times), first: case %d [%s]: %s" % (key, len(fs), f["case"], f["desc"],
                                                          f["text"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))

    samples = res.samples
    if len(samples) > 12:
        step = len(samples) / 12.0
        samples = [samples[int(i * step)] for i in range(12)]
    ev = dict(
        property=pid, tier=tier, seed=seed, level=prop.get("level", "exploration"),
        coverage=dict(evaluations=res.ends, distinct_nontrivial=len(res.sigs),
                      rule=prop["rule"], samples=samples, oracle_checks=res.checks,
                      measured={k: (int(v) if v == int(v) else v)
                                for k, v in sorted(res.stats.items())},
                      workloads=["%s %s" % (j["bin"], j["mode"]) for j in prop["jobs"]
                                 if j.get(tier)],
                      known_findings_seen=sorted(seen_known), build_s=round(tb, 1)),
        assumptions=prop.get("assumptions", []),
        wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violations:
        return 1
    for f in inconclusive:
        res.errors.append("inconclusive: case %d [%s] %s" % (f["case"], f["desc"], f["text"]))
    # A run that observed nothing decides nothing
    if res.ends == 0 or not res.sigs or res.checks < prop.get("min_checks", 1):
        res.errors.append("nothing was observed (%d cases, %d checks)" % (res.ends, res.checks))
    for k, v in prop.get("min_stats", {}).items():
        if res.stats.get(k, 0) < v * min(1.0, scale):
            res.errors.append("too few events: %s = %g, need %g" % (k, res.stats.get(k, 0), v))
    if res.errors:
        for e in res.errors[:10]:
            print("ERROR:", e)
        return 3
    print("%s: held on %d cases (%d distinct, %d oracle evaluations) in %.1f s (build %.1f s)" %
          (pid, res.ends, len(res.sigs), res.checks, time.time() - t0, tb))
    return 0


if __name__ == "__main__":
    sys.exit(main())
