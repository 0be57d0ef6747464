#!/usr/bin/env python3
"""check.py PROPERTY            decide one property on /repo's current working tree
   check.py --replay FILE       run one recorded counterexample against the real code
   check.py --setup             build everything once (warms nothing that a check relies on)

The deciding step is symbolic execution (symx + Z3, and Kani/CBMC for one pair of
harnesses) of the crate's compiled LLVM IR; see DESIGN.md."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, ASSUME, STEPS  # noqa: E402

BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JOBS = max(1, min(8, len(os.sched_getaffinity(0))))
T0 = time.time()
LIMIT = 3000 if THOROUGH else 780
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)


class Error(Exception):
    """the check could not decide: neither held nor violated"""


def left():
    return LIMIT - (time.time() - T0)


GROUPS = set()
HALT = threading.Event()


def stop_groups():
    """end what is still running in process groups of its own"""
    for g in list(GROUPS):
        try:
            os.killpg(g, signal.SIGKILL)
        except ProcessLookupError:
            pass


def run(cmd, cwd, env=None, timeout=None, mem=None, group=False):
    cap = (lambda: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))) if mem else None
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", preexec_fn=cap, process_group=0 if group else None)
    if group:
        GROUPS.add(p.pid)
        if HALT.is_set():
            stop_groups()
    try:
        o, _ = p.communicate(timeout=timeout)
        return subprocess.CompletedProcess(cmd, p.returncode, o)
    except subprocess.TimeoutExpired:
        if group:
            os.killpg(p.pid, signal.SIGKILL)
        p.kill()
        o, _ = p.communicate()
        return subprocess.CompletedProcess(cmd, 124, o or "")
    finally:
        if p.poll() is None:
            p.kill()
        GROUPS.discard(p.pid)


def must(cmd, cwd, env=None, timeout=600, what=""):
    r = run(cmd, cwd, env, timeout)
    if r.returncode:
        raise Error("%s failed (%s):\n%s" % (what, r.returncode, r.stdout[-3000:]))
    return r.stdout


# ------------------------------------------------------------------ building

def sysroot_bin():
    s = subprocess.check_output(["rustc", "--print", "sysroot"], env=ENV, text=True).strip()
    b = glob.glob(s + "/lib/rustlib/*/bin/opt")
    if not b:
        raise Error("llvm-tools are missing from the stable toolchain")
    return b[0]


def build_symx():
    must(["cargo", "build", "--release", "--offline", "--target-dir", BUILD + "/symx"], HERE + "/symx", what="building symx")
    return BUILD + "/symx/release/symx"


def build_ir(harnesses):
    """the harness binary's whole-program bitcode, reduced to the chosen entry points"""
    tgt = BUILD + "/ir"
    # never reuse an earlier run's code: the encoding comes from the tree as it is now
    for d in glob.glob(tgt + "/release/deps/vharness*") + glob.glob(tgt + "/release/.fingerprint/vharness*") \
            + glob.glob(tgt + "/release/.fingerprint/yason*"):
        shutil.rmtree(d) if os.path.isdir(d) else os.remove(d)
    env = dict(ENV, RUSTFLAGS="--cfg symx -C link-arg=-Wl,--unresolved-symbols=ignore-all")
    must(["cargo", "rustc", "--release", "--offline", "--bin", "vharness", "--target-dir", tgt, "--", "-C", "save-temps"],
         HERE + "/harness", env, what="compiling the harnesses against /repo")
    bc = glob.glob(tgt + "/release/deps/vharness-*-cgu.0.rcgu.bc")
    if len(bc) != 1:
        raise Error("expected one bitcode module, found %r" % bc)
    ll = tgt + "/module.ll"
    must([sysroot_bin(), "-passes=internalize,globaldce", "--internalize-public-api-list=" + ",".join(harnesses),
          "-S", bc[0], "-o", ll], HERE, what="extracting the IR")
    return ll


def build_native(profile):
    tgt = BUILD + "/native"
    must(["cargo", "build", "--offline", "--profile", profile, "--target-dir", tgt], HERE + "/harness",
         what="building the %s replay binary" % profile)
    return tgt + ("/debug" if profile == "dev" else "/" + profile) + "/vharness"


# ------------------------------------------------------------------ replay

class Native:
    def __init__(self):
        self.bins = {}

    def bin(self, profile):
        if profile not in self.bins:
            self.bins[profile] = build_native(profile)
        return self.bins[profile]

    def run(self, profile, harness, tape, fill, tier, timeout=60):
        with tempfile.NamedTemporaryFile(prefix="tape", delete=False) as f:
            f.write(tape)
        try:
            r = run([self.bin(profile), harness, f.name, str(fill), str(tier)], "/", timeout=timeout, mem=8 << 30)
        finally:
            os.unlink(f.name)
        outs = re.findall(r"^out (\d+)$", r.stdout, re.M)
        return r.returncode, outs, r.stdout


FILLS = [0xA5, 0x00, 0xFF]


def reproduce(native, harness, tape, fill, tier):
    """(profile, what happened) when the real code fails on the tape, else None"""
    fills = ([fill] if fill is not None else []) + FILLS
    for profile in ("dev", "ship"):
        seen = {}
        for f in dict.fromkeys(fills):
            rc, outs, text = native.run(profile, harness, tape, f, tier)
            if rc in (77, 78):
                continue
            if rc != 0:
                tail = [l for l in text.splitlines() if not l.startswith("out ")]
                if rc == 124:
                    return profile, f, "does not end within 60 s"
                return profile, f, "exit %d: %s" % (rc, " | ".join(tail)[-400:])
            seen[f] = outs
        if len({tuple(v) for v in seen.values()}) > 1:
            return profile, FILLS[0], "output depends on the previous content of fresh memory"
    return None


# ------------------------------------------------------------------ kani

def kani(name):
    env = dict(ENV)
    env.pop("RUSTUP_TOOLCHAIN")
    cmd = ["cargo", "kani", "--harness", name, "--exact", "--target-dir", BUILD + "/kani-" + name]
    t = time.time()
    r = run(cmd, HERE + "/kani", env, timeout=max(60, min(left() - 120, (420, 3600)[THOROUGH])), group=True)
    o = r.stdout
    res = {"harness": name, "wall_s": round(time.time() - t, 1), "tape": None}
    m = re.search(r"\*\* (\d+) of (\d+) failed", o)
    res["checks"] = int(m.group(2)) if m else 0
    m = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", o)
    res["covers"] = [int(m.group(1)), int(m.group(2))] if m else [0, 1]
    m = re.search(r"Verification Time: ([\d.]+)s", o)
    res["solver_s"] = float(m.group(1)) if m else 0.0
    if HALT.is_set():
        res["result"] = "stopped"
        return res
    if "VERIFICATION:- SUCCESSFUL" in o:
        res["result"] = "ok" if res["covers"][0] == res["covers"][1] else "vacuous"
        return res
    failed = re.findall(r"Failed Checks: (.*)", o)
    if "could not compile" in o:
        res["result"] = "error: " + o[-600:]
        return res
    # no verdict: what this harness would add is not explored, and said so
    if "VERIFICATION:- FAILED" not in o:
        res["result"] = "undischarged: " + ("time limit" if r.returncode == 124 else o[-300:])
        return res
    if failed and all("unwinding" in f or "not currently supported" in f for f in failed):
        res["result"] = "undischarged: " + failed[0]
        return res
    res["result"] = "failed"
    res["failed"] = failed[:8]
    r = run(cmd + ["-Z", "concrete-playback", "--concrete-playback=print"], HERE + "/kani", env, timeout=max(60, left()), group=True)
    for blk in re.findall(r"/// Check for `(?!cover)[^`]*`.*?concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\];", r.stdout, re.S):
        v = re.findall(r"vec!\[([\d, ]*)\]", blk)
        if v:
            b = bytes(int(x) for x in v[0].split(","))
            res["tape"] = b.hex()
            break
    return res


# ------------------------------------------------------------------ one property

def known(prop):
    out = []
    p = HERE + "/known_findings.txt"
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) harness=(\S+) match=(\"[^\"]*\") (.*)", l)
        if m and m.group(1) == prop:
            out.append((m.group(2), json.loads(m.group(3)), m.group(4)))
    return out


TIMEUP = "time limit within a path"
# Harnesses on documents of thousands of entries: a change that makes an operation slower than it need be, and
# is right, takes them beyond their step limit.
VAST = re.compile("_(huge|wide|over|big|far|count|many)$")


def tapes(rep):
    return [(bytes.fromhex(v["tape"]), v["fill"], "%s at %s in %s" % (v["kind"], v["loc"], v["func"])) for v in rep["violations"]]


def decide(prop):
    spec = PROPS[prop]
    hs = spec["harnesses"]
    tier = 1 if THOROUGH else 0
    os.makedirs(BUILD, exist_ok=True)
    native = Native()
    with cf.ThreadPoolExecutor(8) as ex:
        kf = [ex.submit(kani, k) for k in spec.get("kani", [])]
        fs, fi, fn = ex.submit(build_symx), ex.submit(build_ir, sorted(hs)), ex.submit(native.bin, "dev")
        symx, ll = fs.result(), fi.result()
        fn.result()
        build_s = time.time() - T0
        reports, errors, found, ignored, notes = {}, [], [], [], []
        shutil.rmtree(HERE + "/evidence/replays/" + prop, ignore_errors=True)

        def confirm(h, violations):
            """counterexamples against the real code"""
            for tape, fill, what in violations[:6]:
                rep = reproduce(native, h, tape, fill, tier)
                if rep is None and what.startswith("runs on: step limit") and VAST.search(h):
                    notes.append("%s: %s, but the real code ends and passes with it; this harness is not covered by this run" % (h, what))
                    continue
                if rep is None:
                    errors.append("%s: %s: %s tape %s" % (h, "undecided" if what.startswith("runs on") else "counterexample does not fail natively",
                                                          what, tape.hex()[:400]))
                    continue
                profile, f, seen = rep
                kn = [k for k in known(prop) if k[0] == h and k[1] in seen]
                if kn:
                    ignored.append(kn[0][2])
                    continue
                d = HERE + "/evidence/replays/" + prop
                os.makedirs(d, exist_ok=True)
                p = "%s/%s-%s.json" % (d, h, hashlib.sha1(tape).hexdigest()[:10])
                json.dump({"property": prop, "harness": h, "tape": tape.hex(), "fill": f, "tier": tier, "profile": profile,
                           "solver_says": what, "real_code": seen}, open(p, "w"), indent=1)
                found.append((p, h, what, seen))
                if "does not end" in seen:
                    break

        def explore(h, want, budget, last):
            """one harness; False if it needs more time"""
            out = "%s/report-%s-%d.json" % (BUILD, h, os.getpid())
            r = run([symx, ll, h, "--time", "%d" % budget, "--jobs", str(JOBS), "--tier", str(tier), "--seed", str(SEED),
                     "--steps", str(STEPS.get(h, STEPS[""])[tier] * 1000000), "--samples", "12", "--out", out], HERE, timeout=budget + 120)
            try:
                rep = json.load(open(out))
                os.unlink(out)
            except (OSError, ValueError):
                errors.append("%s: no report (exit %s): %s" % (h, r.returncode, r.stdout[-500:]))
                return True
            short = "time limit" in rep["inconclusive"] or any(TIMEUP in v["kind"] for v in rep["violations"])
            if short and not last:
                # what it has found so far
                before = len(errors)
                confirm(h, [c for c in tapes(rep) if TIMEUP not in c[2]])
                del errors[before:]
                return bool(found)
            reports[h] = rep
            for k, c in rep["inconclusive"].items():
                errors.append("%s: %s (%d paths)" % (h, k, c))
            if not rep["violations"]:
                for c in want.get("covers", [0]):
                    if not rep["covers"].get(str(c)):
                        errors.append("%s: vacuous, nothing reached witness %d" % (h, c))
            confirm(h, tapes(rep))
            return True

        # a short turn for every harness, then a long one for those that did not finish
        todo = []
        for i, (h, want) in enumerate(sorted(hs.items(), key=lambda x: (not x[1].get("first"), x[0]))):
            first = min((75, 500)[tier], max(20, (left() - 100) / (len(hs) - i)))
            if left() < 100:
                todo.append((h, want))
            elif not explore(h, want, first, False):
                todo.append((h, want))
            if found:
                break
        for h, want in todo:
            if found:
                break
            budget = min(left() - 60, want.get("time", (240, 1500))[tier])
            if budget < 5:
                errors.append("%s: no time left" % h)
                continue
            explore(h, want, budget, True)
        if found:
            for f in kf:
                f.cancel()
            HALT.set()
            stop_groups()
        kres = [] if found else [f.result() for f in kf]
        for k in kres:
            if k["result"] == "failed":
                if k["tape"]:
                    confirm("H_str_len", [(bytes.fromhex(k["tape"]), None, "kani: " + "; ".join(k["failed"]))])
                else:
                    errors.append("kani %s failed without a counterexample: %s" % (k["harness"], k["failed"]))
            elif k["result"].startswith("undischarged"):
                print("NOTE: kani %s gave no verdict (%s); not covered by this run" % (k["harness"], k["result"]))
            elif k["result"] != "ok":
                errors.append("kani %s: %s" % (k["harness"], k["result"]))

    # passing paths: the engine and the real code must compute the same
    validated, samples = 0, []
    if not found:
        for h, rep in sorted(reports.items()):
            for s in rep["samples"][:6]:
                tape = bytes.fromhex(s["tape"])
                rc, outs, text = native.run("dev", h, tape, FILLS[0], tier)
                if rc != 0 or outs != s["outs"]:
                    errors.append("%s: engine and real code differ on tape %s: %s" % (h, s["tape"][:400], text[-300:]))
                else:
                    validated += 1
                if len(samples) < 12:
                    samples.append({"harness": h, "input_tape": s["tape"], "observed_digests": s["outs"]})
    write_evidence(prop, spec, tier, reports, kres, found, errors + notes, validated, samples, build_s)
    for k in sorted(set(notes)):
        print("NOTE: " + k)
    for k in sorted(set(ignored)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if found:
        for p, h, what, seen in found:
            print("%s: %s\n  real code: %s" % (h, what, seen))
        for p, *_ in found[:1]:
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if errors:
        for e in errors:
            print("ERROR " + e)
        return 2
    print("%s held: %d harnesses, %d paths, %d solver queries, %.0f s" % (
        prop, len(reports), sum(r["paths"] for r in reports.values()), sum(r["queries"] for r in reports.values()), time.time() - T0))
    return 0


def write_evidence(prop, spec, tier, reports, kres, found, errors, validated, samples, build_s):
    tot = lambda k: sum(r[k] for r in reports.values())
    enc = sorted({e for r in reports.values() for e in r["encoded"]})
    lines = {}
    for r in reports.values():
        for f, l in r["lines"].items():
            lines.setdefault(f, set()).update(x for x in l if x)
    ev = {
        "property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "model_checking",
        "coverage": {
            "explanation": "symbolic execution of the compiled crate; a state is one complete symbolic path (a set of inputs given by its path condition), a transition one executed IR instruction",
            "states": tot("paths"), "transitions": tot("instructions"),
            "traces_validated_against_impl": validated, "samples": samples,
            "bounds": spec["bounds"],
            "paths_cut_by_assumptions": tot("assumed"), "forks": tot("forks"),
            "solver": "Z3 %s%s" % (next(iter(reports.values()))["z3"] if reports else "?", ", CBMC through Kani" if kres else ""),
            "queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"),
            "query_cache_hits": tot("cache_hits"), "solver_s": round(tot("solver_s"), 2),
            "slowest_query_s": max([r["max_query_s"] for r in reports.values()] or [0]),
            "deepest_call": max([r["max_call_depth"] for r in reports.values()] or [0]),
            "longest_path_instructions": max([r["max_instructions"] for r in reports.values()] or [0]),
            "most_symbolic_bytes_on_a_path": max([r["max_symbolic_bytes"] for r in reports.values()] or [0]),
            "per_harness": {h: {k: r[k] for k in ("paths", "forks", "queries", "unsat", "solver_s", "run_s", "max_symbolic_bytes", "covers", "inconclusive")} for h, r in sorted(reports.items())},
            "kani": [{k: v for k, v in x.items() if k != "tape"} for x in kres],
            "functions_encoded": enc,
            "source_lines_executed": {f: len(l) for f, l in sorted(lines.items())},
            "undecided": errors,
            "build_s": round(build_s, 1),
        },
        "assumptions": ASSUME + spec.get("assume", []),
        "wall_s": round(time.time() - T0, 1), "violations": len(found),
    }
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (HERE, prop), "w"), indent=1)


def main():
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        r = json.load(open(a[1]))
        n = Native()
        rep = reproduce(n, r["harness"], bytes.fromhex(r["tape"]), r["fill"], r["tier"])
        print("reproduced: %s" % (rep,) if rep else "did not fail")
        return 1 if rep else 0
    if a[:1] == ["--setup"]:
        hs = sorted({h for p in PROPS.values() for h in p["harnesses"]})
        os.makedirs(BUILD, exist_ok=True)
        build_symx()
        build_ir(hs)
        build_native("dev")
        return 0
    return decide(a[0])


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Error as e:
        print("ERROR %s" % e)
        sys.exit(2)
