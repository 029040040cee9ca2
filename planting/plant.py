#!/usr/bin/env python3
"""Work bench for planted bugs (not used by any check).
 plant.py add ID   : makes /verif/seeded/ID from planting/bugs/ID.py
 plant.py try ID.. : in a scratch copy: stable tests, demo on both trees, checks
"""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)

def add(bid, edits, meta, demo, build="build_demo demo.cc \"$T/demo\"", run="\"$T/demo\" \"$T\"", files={}):
    d = V + "/seeded/" + bid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    wt = tempfile.mkdtemp(prefix="plant-")
    sh("git -C /repo archive HEAD | tar x -C " + wt)
    sh("git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x", cwd=wt)
    base = {}
    for f, old, new in edits:
        p = os.path.join(wt, f)
        t = open(p).read()
        assert t.count(old) == 1, (bid, f, t.count(old), old)
        orig = subprocess.run(["git", "-C", "/repo", "show", "0f439a5:" + f], text=True, capture_output=True).stdout
        open(p, "w").write(t.replace(old, new))
    diff = sh("git diff", cwd=wt).stdout
    # every removed line has to be one of the original repository
    cur = None
    for l in diff.split("\n"):
        if l.startswith("--- a/"):
            cur = subprocess.run(["git", "-C", "/repo", "show", "0f439a5:" + l[6:]], text=True, capture_output=True).stdout.split("\n")
        elif l.startswith("-") and not l.startswith("---"):
            if l[1:].strip() and l[1:] not in cur: print("WARNING", bid, "changes a line that is not original:", l)
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree(wt)
    shutil.copy(V + "/planting/kit_register.cc", d + "/register.cc")
    shutil.copy(V + "/planting/kit_build.sh", d + "/build.inc")
    shutil.copy(V + "/planting/kit_demo.h", d + "/demo.h")
    open(d + "/demo.cc", "w").write(demo)
    for n, c in files.items(): open(d + "/" + n, "w").write(c)
    open(d + "/demo.sh", "w").write("#!/bin/bash\n. \"$(dirname \"$0\")/build.inc\"\n" + build + "\n" + "timeout 120 " + run + " > \"$T/log\" 2>&1\nrc=$?\ntail -5 \"$T/log\"\nexit $rc\n")
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/meta.json", "w").write(json.dumps(meta, indent=1) + "\n")

def check(bid, pids, rounds=1):
    """returns a line of text"""
    d = V + "/seeded/" + bid
    wt = "/tmp/pl-" + bid
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree("/repo", wt, symlinks=True)
    out = [bid]
    try:
        r = sh("bash %s/demo.sh" % d, cwd=wt)
        out.append("clean=%d" % r.returncode)
        if r.returncode: out.append(r.stdout[-300:] + r.stderr[-300:])
        r = sh("git apply %s/patch.diff" % d, cwd=wt)
        if r.returncode: return "%s patch does not apply: %s" % (bid, r.stderr)
        r = sh("bash %s/demo.sh" % d, cwd=wt)
        out.append("planted=%d (%s)" % (r.returncode, r.stdout.strip()[-100:]))
        # stable tests, built from the scratch copy
        t = tempfile.mkdtemp(prefix="pt-")
        s = open("/opt/vp/build.sh").read() + "\n"
        r = sh("bash %s/planting/stable.sh %s %s" % (V, wt, t))
        out.append("tests=" + r.stdout.strip()[-60:])
        shutil.rmtree(t, ignore_errors=True)
        vs = "/tmp/plv-" + bid
        shutil.rmtree(vs, ignore_errors=True)
        shutil.copytree(V, vs, symlinks=True, ignore=shutil.ignore_patterns("seeded", ".git", "replays"))
        env = dict(os.environ, VT_REPO=wt)
        for p in pids:
            r = subprocess.run(["python3", "run.py", p], cwd=vs, env=env, text=True, capture_output=True)
            first = [l for l in r.stdout.split("\n") if l and not l.startswith("VIOLATION")]
            out.append("\n    %s=%d %s" % (p, r.returncode, (first[0] if first else r.stderr[-200:])[:230]))
        shutil.rmtree(vs, ignore_errors=True)
    finally:
        shutil.rmtree(wt, ignore_errors=True)
    return " ".join(out)

if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "add":
        for f in sys.argv[2:]:
            def add_(*a, **k):
                try: add(*a, **k)
                except AssertionError as e:
                    print("FAILED", e)
                    shutil.rmtree(V + "/seeded/" + a[0], ignore_errors=True)
            ns = {"add": add_, "__file__": f}
            exec(compile(open(f).read(), f, "exec"), ns)
    else:
        for b in sys.argv[2:]:
            bid, _, ps = b.partition(":")
            p = json.load(open(V + "/seeded/%s/meta.json" % bid))["property"]
            print(check(bid, ps.split(",") if ps else [p]), flush=True)
