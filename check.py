#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay SCENARIO PATH] [--only SUBSTR]

Compiles harness/<ID>/*.cpp against the CML working tree (default /repo, or $CML_REPO),
explores every scenario exhaustively and writes evidence/<ID>.json.
Exit 0: held on everything explored.  Exit 1: a VIOLATION line was printed.
"""
import argparse, glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CML_REPO", "/repo")
# 'tsan-hooks': instrument the harness's library-facing files, and link the harness's own answers to the instrumentation (rt_*.cpp).
HOOKS = ["-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset", "-fno-builtin-memcmp", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
WRAPPED = ["memcpy", "memmove", "memset", "memcmp", "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_rwlock_rdlock",
           "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_spin_lock", "pthread_spin_unlock", "sched_yield", "pthread_once", "pthread_create",
           "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=float-divide-by-zero,float-cast-overflow"]
BASE = ["-std=c++17", "-w", "-g0"]

def config(pid, tier="quick"):
    """Flags for a property: harness/<ID>/flags holds words; 'asan' switches the sanitizers on, 'asan-thorough' only for the thorough tier."""
    flags, san = ["-O1"], False
    f = os.path.join(HERE, "harness", pid, "flags")
    if os.path.exists(f):
        words = open(f).read().split()
        san = "asan" in words or (tier == "thorough" and "asan-thorough" in words)
        words = [w for w in words if w not in ("asan", "asan-thorough", "tsan-hooks")]
        if words: flags = words
    return BASE + flags + (ASAN if san else []), san

def load_known(pid):
    f = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(f): return []
    return [k for k in json.load(open(f)).get("findings", []) if k["property"] == pid]

def hooked(pid):
    f = os.path.join(HERE, "harness", pid, "flags")
    return os.path.exists(f) and "tsan-hooks" in open(f).read().split()

class CompileError(Exception): pass
class ToolError(Exception): pass

def build(pid, bdir, tier):
    flags, _ = config(pid, tier)
    if tier == "thorough": flags = flags + ["-DMC_THOROUGH=1"]
    srcs = sorted(glob.glob(os.path.join(HERE, "harness", pid, "*.cpp")))
    if not srcs: raise ToolError("no harness for " + pid)
    hk = hooked(pid)
    jobs = [(os.path.join(HERE, "mc", "mc_main.cpp"), BASE + ["-O1"])] + [
        (s, flags + (HOOKS if hk and not os.path.basename(s).startswith("rt_") else [])) for s in srcs]
    # An instrumented harness must not instrument the explorer's own code differently at link time.
    def one(j):
        src, fl = j
        obj = os.path.join(bdir, os.path.basename(src) + ".o")
        r = subprocess.run(["g++"] + fl + ["-I" + REPO, "-I" + os.path.join(HERE, "mc"), "-I" + os.path.join(HERE, "harness"),
                            "-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return src, obj, r.returncode, r.stdout
    # Biggest first, so that the longest compile does not start last.
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, jobs))
    bad = [r for r in res if r[2]]
    if bad:
        log = "\n".join("== %s\n%s" % (r[0], r[3]) for r in bad)
        if re.search(r"internal compiler error|Killed|virtual memory exhausted|No space left|cannot execute", log) or not re.search(r"error", log):
            raise ToolError(log[:4000])
        raise CompileError(log)
    exe = os.path.join(bdir, "harness")
    link = ["-Wl," + ",".join("--wrap=" + w for w in WRAPPED)] if hk else []
    r = subprocess.run(["g++"] + flags + link + [x[1] for x in res] + ["-o", exe, "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        if "undefined reference" in r.stdout: raise CompileError(r.stdout)
        raise ToolError(r.stdout[:4000])
    return exe

def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_segv=1:quarantine_size_mb=8"
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:exitcode=99"
    return e

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay", nargs=2)
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    pid, tier = a.id, a.tier
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(HERE, "build"))
    rdir = os.path.join(HERE, "replays", pid)
    try:
        return run(pid, tier, a, bdir, rdir, t0)
    finally:
        if not a.keep: shutil.rmtree(bdir, ignore_errors=True)

def write_evidence(pid, tier, cov, assumptions, nviol, t0):
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)

def run(pid, tier, a, bdir, rdir, t0):
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    assumptions = []
    af = os.path.join(HERE, "harness", pid, "assumptions.txt")
    if os.path.exists(af): assumptions = [l.strip() for l in open(af) if l.strip()]
    try:
        exe = build(pid, bdir, tier)
    except CompileError as e:
        path = os.path.join(rdir, "compile.log")
        open(path, "w").write("The harness uses only the documented public interface and no longer compiles.\n"
                              "Replay: python3 %s/check.py %s\n\n%s" % (HERE, pid, e))
        print(str(e)[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        write_evidence(pid, tier, {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": ["harness did not compile"], "exhaustive": False}, assumptions, 1, t0)
        return 1
    except ToolError as e:
        print("TOOL ERROR", e); return 2
    build_s = time.time() - t0
    if a.replay:
        r = subprocess.run([exe, "--replay", a.replay[0], a.replay[1]] + (["--thorough"] if tier == "thorough" else []), env=env())
        return r.returncode
    known = load_known(pid)
    kf = os.path.join(bdir, "known.txt")
    open(kf, "w").write("".join(k["match"] + "\n" for k in known))
    out = os.path.join(bdir, "out.jsonl")
    cap = 3000 if tier == "thorough" else 700
    cap = int(os.environ.get("MC_CAP", cap))
    cmd = [exe, "--out", out, "--cap", str(cap), "--known", kf] + (["--thorough"] if tier == "thorough" else [])
    if a.only: cmd += ["--only", a.only]
    r = subprocess.run(cmd, env=env())
    if not os.path.exists(out):
        print("TOOL ERROR: no output, rc", r.returncode); return 2
    rows = [json.loads(l) for l in open(out) if l.strip()]
    viol, kn = [], {}
    for row in rows:
        for v in row["violations"]: viol.append((row["scenario"], v))
        for k in row["known"]: kn.setdefault(k["index"], []).append((row["scenario"], k))
    ex = sum(x["executions"] for x in rows)
    complete = all(x["complete"] for x in rows)
    samples = []
    for x in rows[:: max(1, len(rows) // 8)]:
        for s in x["samples"]: samples.append(x["scenario"] + " " + s)
    cov = {"states": sum(x["states"] for x in rows), "transitions": sum(x["transitions"] for x in rows),
           "traces_validated_against_impl": ex, "scenarios": len(set(x["scenario"] for x in rows)),
           "executions": ex, "exhaustive": complete,
           "incomplete": [{"scenario": x["scenario"], "why": x["why"]} for x in rows if not x["complete"]][:20],
           "state_sets_capped": sum(1 for x in rows if x["states_capped"]),
           "replay_runs": sum(x["replays"] for x in rows),
           "build_s": round(build_s, 2), "samples": samples[:10] or ["none"],
           "rule": "every complete choice vector of every scenario is one execution of the real code compared step by step with the reference model; states = distinct observed outcome hashes per scenario; transitions = library operations executed and compared",
           "largest": sorted([[x["executions"], x["scenario"], x["wall"]] for x in rows], reverse=True)[:8]}
    write_evidence(pid, tier, cov, assumptions, len(viol), t0)
    for i, lst in sorted(kn.items()):
        print("KNOWN-FINDING: property=%s %s (%d executions, e.g. %s [%s])" % (pid, known[i]["what"], sum(k["count"] for _, k in lst), lst[0][0], lst[0][1]["path"]))
    print("%s %s: scenarios=%d executions=%d transitions=%d states=%d exhaustive=%s build=%.1fs total=%.1fs" % (
        pid, tier, cov["scenarios"], ex, cov["transitions"], cov["states"], complete, build_s, time.time() - t0))
    if viol:
        n = 0
        for sc, v in viol:
            n += 1
            path = os.path.join(rdir, "%03d.txt" % n)
            open(path, "w").write(
                "property %s\nscenario %s\nsite %s\nchoices %s\nfailing executions at this site %d, reproduced %d\n"
                "replay: cd %s && python3 check.py %s --tier %s --replay '%s' '%s'\n\n%s\n\ntrace: %s\n" % (
                pid, sc, v["site"], v["path"], v["count"], v["reproduced"], HERE, pid, tier, sc, v["path"], v["detail"], v["trace"]))
            if n <= 12:
                print("  %s | %s | [%s] x%d | %s" % (sc, v["site"], v["path"], v["count"], v["detail"][:400].replace("\n", " ")))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.join(rdir, "001.txt")))
        return 1
    if r.returncode:
        print("TOOL ERROR: harness rc", r.returncode); return 2
    return 0

if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit: raise
    except BaseException as e:
        print("TOOL ERROR", repr(e)); sys.exit(2)
