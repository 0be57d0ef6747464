#!/usr/bin/env python3
"""Development helper, used by no check: builds seeded/<id>/ out of a description, confirms that the bug
builds, passes the tests and is shown by its demonstration; or runs the checks against planted bugs.
   plant.py make SPEC.py [ID...]      SPEC.py defines BUGS = {id: dict(property, edits=[(file, old, new)], demo, needs, breaks)}
   plant.py confirm [ID...]           confirms seeded bugs against the current /repo
   plant.py catch [ID...]             applies each to /repo, runs its property's check, undoes it"""
import json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
SCR = "/tmp/plant"

DEMO = """#!/bin/bash
# run in the repository: builds demo.rs against it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
cp "$D/Cargo.lock.txt" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
yason = { path = "$R", features = ["serde"] }
serde_json = { version = "1", features = ["arbitrary_precision"] }
bincode = "1.3"
%s
END
cd "$T" || exit 9
unset CARGO_TARGET_DIR RUSTFLAGS
cargo build --offline -q 2> build.log || { cat build.log; exit 8; }
timeout 200 ./target/debug/demo > out.log 2>&1
rc=$?
tail -5 out.log
exit $rc
"""


def sh(cmd, cwd=None, timeout=900):
    p = subprocess.Popen(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return 124, "timeout"


def copy():
    os.makedirs(SCR, exist_ok=True)
    d = SCR + "/repo"
    if os.path.isdir(d):
        sh(["git", "checkout", "-q", "--", "."], d)
        sh(["git", "fetch", "-q", "/repo", "HEAD"], d)
        sh(["git", "checkout", "-q", "--detach", "FETCH_HEAD"], d)
    else:
        sh(["cp", "-a", "/repo", d])
    return d


def confirm(i, d):
    b = os.path.join(SEED, i)
    rc, o = sh(["git", "apply", os.path.join(b, "patch.diff")], d)
    if rc:
        return "patch does not apply: " + o
    rc, o = sh("cargo test --all-features --offline 2>&1", d)
    ok = len(re.findall(r"^test .*ok$", o, re.M))
    if rc:
        return "tests fail: " + " ".join(re.findall(r"^test (.*) \.\.\. FAILED", o, re.M)) + (o[-1500:] if "error[" in o else "")
    if ok < 40:
        return "only %d tests" % ok
    rc, o = sh(["bash", os.path.join(b, "demo.sh")], d)
    if rc == 0:
        return "demo passes with the bug"
    if rc == 8:
        return "demo does not build: " + o[-900:]
    sh(["git", "checkout", "-q", "--", "."], d)
    rc2, o2 = sh(["bash", os.path.join(b, "demo.sh")], d)
    if rc2:
        return "demo fails without the bug: " + o2
    return None


def make(spec, ids):
    ns = {}
    exec(open(spec).read(), ns)
    for i, b in ns["BUGS"].items():
        if ids and i not in ids:
            continue
        d = copy()
        bad = None
        for f, old, new in b["edits"]:
            s = open(os.path.join(d, f)).read()
            if s.count(old) != 1:
                bad = "%s: %d occurrences of %r" % (f, s.count(old), old[:60])
                break
            open(os.path.join(d, f), "w").write(s.replace(old, new))
        if bad:
            print(i, "BAD", bad, flush=True)
            continue
        t = os.path.join(SEED, i)
        os.makedirs(t, exist_ok=True)
        open(t + "/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True).stdout)
        open(t + "/demo.rs", "w").write("// " + b["breaks"] + "\n" + b["demo"].strip() + "\n")
        open(t + "/demo.sh", "w").write(DEMO % b.get("cargo", ""))
        shutil.copy(HERE + "/tools/demo.lock", t + "/Cargo.lock.txt")
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(t + "/meta.json", "w"), indent=1)
        sh(["git", "checkout", "-q", "--", "."], d)
        r = confirm(i, d)
        print(i, r or "ok", flush=True)
        if r:
            shutil.move(t, SCR + "/rejected_" + i + "_%d" % time.time())


def worker():
    """a copy of /verif whose harnesses build against a copy of /repo"""
    r, v = SCR + "/w/repo", SCR + "/w/verif"
    os.makedirs(SCR + "/w", exist_ok=True)
    if not os.path.isdir(r):
        sh(["cp", "-a", "/repo", r])
    sh(["git", "checkout", "-q", "--", "."], r)
    sh(["git", "fetch", "-q", "/repo", "HEAD"], r)
    sh(["git", "checkout", "-q", "--detach", "FETCH_HEAD"], r)
    os.makedirs(v, exist_ok=True)
    sh("rsync -a --exclude target check.py props.py known_findings.txt symx harness kani %s/ || cp -a check.py props.py known_findings.txt symx harness kani %s/" % (v, v), HERE)
    for c in ("harness", "kani"):
        sh(["sed", "-i", 's|path = "/repo"|path = "%s"|' % r, v + "/" + c + "/Cargo.toml"])
    return r, v


def catch(ids):
    res = {}
    r, v = worker()
    for i in ids or sorted(os.listdir(SEED)):
        b = os.path.join(SEED, i)
        p = json.load(open(b + "/meta.json"))["property"]
        rc, o = sh(["git", "apply", b + "/patch.diff"], r)
        if rc:
            print(i, "does not apply"); continue
        t = time.time()
        try:
            rc, o = sh(["python3", "check.py", p], v, 900)
        finally:
            sh(["git", "checkout", "-q", "--", "."], r)
        l = [l for l in o.splitlines() if l.startswith("VIOLATION")]
        res[i] = rc
        print("%s %s rc=%d %.0fs %s" % (i, p, rc, time.time() - t, l[0] if l else ("CAUGHT?" if rc else "MISSED")), flush=True)
        if rc not in (0, 1):
            print(o[-1500:])
    return res


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2], sys.argv[3:])
    elif sys.argv[1] == "catch":
        catch(sys.argv[2:])
    else:
        for i in sys.argv[2:] or sorted(os.listdir(SEED)):
            print(i, confirm(i, copy()) or "ok", flush=True)
