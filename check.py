#!/usr/bin/env python3
"""Runner of the runtime-monitoring checks.

  check.py PROP [--tier quick|thorough]     decide one property
  check.py --list                           list properties and jobs
  check.py --prebuild                       build every quick harness (setup_cmd)
  check.py PROP --replay FILE               re-run a recorded violation

Every check compiles its harnesses against the working tree of the repository
($VERIF_REPO, default /repo), runs the workload in parallel shards, collects
what the monitors observed and judged, and writes evidence/<PROP>.json.
"""
import concurrent.futures as cf
import fnmatch
import hashlib
import json
import os
import re
import shlex
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, os.path.join(VERIF, "lib"))
import spec  # noqa: E402

NCPU = os.cpu_count() or 4
T0 = time.time()


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


# ------------------------------------------------------------------ building
def job_cmd(job):
    """full compile command without -o, and the libs"""
    cc = job.get("cc", "g++")
    std = job.get("std", "c++11")
    fl = ["-std=" + std, "-w", "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "libhifir/include"),
          "-I" + os.path.join(REPO, "libhifir/src"), "-I" + os.path.join(VERIF, "harness"), '-DREPO="%s"' % REPO]
    fl += job.get("opt", "-O1").split()
    san = job.get("san", "")
    if san:
        fl += ["-fsanitize=" + san, "-g1", "-fno-omit-frame-pointer"]
        if "undefined" in san:
            fl += ["-fno-sanitize-recover=undefined"]
    fl += ["-D" + d for d in job.get("defs", [])]
    srcs = [os.path.join(VERIF, "harness", job["src"])]
    for s in job.get("extra", []):
        srcs.append(s.replace("@REPO@", REPO).replace("@H@", os.path.join(VERIF, "harness")))
    libs = job.get("libs", "-llapack -lblas").split()
    return cc, fl, srcs, libs


def build(job):
    """returns (path or None, seconds, message)"""
    t = time.time()
    cc, fl, srcs, libs = job_cmd(job)
    h = hashlib.sha256()
    h.update(repr((cc, fl, srcs, libs, job.get("post"))).encode())
    for s in srcs:
        p = subprocess.run([cc] + fl + ["-E", "-P", s], capture_output=True)
        if p.returncode != 0:
            return None, time.time() - t, p.stderr.decode("utf-8", "replace")[-3000:]
        h.update(hashlib.sha256(p.stdout).digest())
    d = os.path.join(BUILD, "bin")
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "%s-%s" % (job["name"], h.hexdigest()[:20]))
    if os.path.exists(exe):
        return exe, time.time() - t, "cached"
    tmp = exe + ".tmp%d" % os.getpid()
    if len(srcs) == 1:
        cmds = [[cc] + fl + srcs + ["-o", tmp] + libs]
    else:
        objs, cmds = [], []
        for i, s in enumerate(srcs):
            o = tmp + ".%d.o" % i
            objs.append(o)
            cmds.append([cc] + fl + ["-c", s, "-o", o])
        linkfl = [f for f in fl if f.startswith("-fsanitize") or f.startswith("-g") or (f == "-fopenmp" and not job.get("noomplink"))]
        cmds.append([cc] + linkfl + objs + ["-o", tmp] + libs)
    for c in cmds:
        p = subprocess.run(c, capture_output=True)
        if p.returncode != 0:
            return None, time.time() - t, p.stderr.decode("utf-8", "replace")[-3000:]
    os.replace(tmp, exe)
    for i in range(len(srcs)):
        if os.path.exists(tmp + ".%d.o" % i):
            os.remove(tmp + ".%d.o" % i)
    return exe, time.time() - t, "built"


# ------------------------------------------------------------------ running
SAN_RE = [
    (re.compile(r"ERROR: AddressSanitizer:? ?([\w-]+)"), "asan"),
    (re.compile(r"runtime error: ([^\n]{0,100})"), "ubsan"),
    (re.compile(r"WARNING: ThreadSanitizer: ([\w -]+)"), "tsan"),
    (re.compile(r"==\d+== ((?:Conditional|Use of uninit|Invalid|Syscall param|Source and dest|Argument|Mismatched)[^\n]{0,80})"), "memcheck"),
    (re.compile(r"ERROR: LeakSanitizer: ([\w -]+)"), "lsan"),
]
FRAME_RE = re.compile(r"(?:#\d+ 0x[0-9a-f]+ in |#\d+ |(?:at|by) 0x[0-9A-F]+: )(.+?)(?: \(?/?[^ ]*?(\w+\.\w+):(\d+)| \(|$)", re.M)


def fn_short(name):
    # strip template arguments and parameters
    out, depth = "", 0
    for c in name:
        if c == "<":
            depth += 1
        elif c == ">":
            depth = max(0, depth - 1)
        elif c == "(" and depth == 0:
            break
        elif depth == 0:
            out += c
    return out.split(" ")[-1] if out else name[:60]


def crash_signature(err, rc):
    kind = None
    for r, k in SAN_RE:
        m = r.search(err)
        if m:
            kind = k + ":" + re.sub(r"0x[0-9a-f]+|[-\d.]+(e[+-]?\d+)?", "N", m.group(1)).strip()[:80]
            break
    if kind is None:
        m = re.search(r"internal assertion failed: ([^\n]*)", err)
        if m:
            return "assertion:" + m.group(1)[:160]
        m = re.search(r"(terminate called[^\n]*|Assertion[^\n]*|[Aa]bort[^\n]*|fatal[^\n]*)", err)
        sig = -rc if rc < 0 else rc
        kind = "crash:rc=%d%s" % (rc, (":" + m.group(1)[:80]) if m else "")
    fr = []
    for m in re.finditer(r"(?:#\d+ 0x[0-9a-f]+ in |#\d+ |(?:at|by) 0x[0-9A-Fa-f]+: )([^\n]+)", err):
        line = m.group(1)
        if "/src/hif/" in line or "hif::" in line or "libhifir" in line:
            f = fn_short(line)
            loc = re.search(r"([\w.]+\.(?:hpp|cpp|h|cc)):\d+", line)
            fr.append(f)
            if len(fr) >= 1:
                break
    m = re.search(r"([\w./]+/hif/[\w./]+):\d+:\d+: runtime error", err)
    if m and not fr:
        fr.append(os.path.basename(m.group(1)))
    return kind + (" in " + fr[0] if fr else "")


class Result:
    def __init__(self):
        self.counters, self.maxima, self.fail_count = {}, {}, {}
        self.fails, self.samples, self.hashes = [], [], set()
        self.evals = 0
        self.lock = threading.Lock()
        self.truncated = False

    def merge(self, d, job):
        with self.lock:
            self.evals += d.get("evals", 0)
            for k, v in d.get("counters", {}).items():
                self.counters[job["name"] + "/" + k] = self.counters.get(job["name"] + "/" + k, 0) + v
            for k, v in d.get("maxima", {}).items():
                k = job["name"] + "/" + k
                self.maxima[k] = max(self.maxima.get(k, v), v)
            if job.get("only_crash"):  # judged by other checks: here only what the sanitizers saw counts
                d["fail_count"], d["fails"] = {}, []
            for k, v in d.get("fail_count", {}).items():
                self.fail_count[(job["name"], k)] = self.fail_count.get((job["name"], k), 0) + v
            for f in d.get("fails", []):
                f["job"] = job["name"]
                self.fails.append(f)
            for s in d.get("samples", []):
                if len(self.samples) < 40:
                    self.samples.append(job["name"] + ": " + s)
            self.hashes.update(job["name"] + h for h in d.get("hashes", []))

    def crash(self, job, sig, case, detail):
        with self.lock:
            self.fail_count[(job["name"], sig)] = self.fail_count.get((job["name"], sig), 0) + 1
            if sum(1 for f in self.fails if f["sig"] == sig and f["job"] == job["name"]) < 3:
                self.fails.append({"sig": sig, "case": case, "detail": detail[-6000:], "desc": "", "job": job["name"]})


def job_env(job):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("OMP_", "ASAN_", "UBSAN_", "TSAN_"))}
    e["ASAN_OPTIONS"] = "exitcode=77:detect_leaks=%d:allocator_may_return_null=%d:detect_stack_use_after_return=1:max_allocation_size_mb=6000" % (1 if job.get("leaks") else 0, 1 if job.get("nullalloc") else 0)
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0:report_signal_unsafe=0:history_size=4"
    e["OMP_NUM_THREADS"] = "1"
    e["OPENBLAS_NUM_THREADS"] = "1"
    e["VERIF_REPO"] = REPO
    e.update(job.get("env", {}))
    return e


def run_one(cmd, env, progress, hang_s, deadline, cwd):
    """returns (rc, stderr_text, state) state in done|hang|deadline"""
    errf = tempfile.TemporaryFile(dir=cwd)
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=errf, cwd=cwd, start_new_session=True)
    last, last_t, state = None, time.time(), "done"
    while True:
        try:
            p.wait(timeout=0.1 if time.time() - last_t < 2 else 0.5)
            break
        except subprocess.TimeoutExpired:
            pass
        now = time.time()
        try:
            cur = open(progress).read().strip()
        except OSError:
            cur = ""
        if cur != last:
            last, last_t = cur, now
        if now - last_t > hang_s:
            state = "hang"
        elif now > deadline:
            state = "deadline"
        if state != "done":
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            break
    errf.seek(0, 2)
    size = errf.tell()
    errf.seek(max(0, size - 400000))
    err = errf.read().decode("utf-8", "replace")
    errf.close()
    return p.returncode, err, state


def read_progress(path):
    try:
        return int(open(path).read().split()[0])
    except (OSError, ValueError, IndexError):
        return -1


def base_cmd(job, exe, seed, tier):
    pre = job.get("wrap", "").split()
    return pre + [exe, "--seed", str(seed), "--tier", tier] + job.get("args", "").split()


def run_shard(job, exe, seed, tier, cases, shard, nshards, res, deadline, tmp):
    start, attempt, crashes, hangs = 0, 0, 0, 0
    env = job_env(job)
    hang_s = job.get("hang", 90)
    while True:
        attempt += 1
        tag = "%s.%d.%d" % (job["name"], shard, attempt)
        out, prog = os.path.join(tmp, tag + ".json"), os.path.join(tmp, tag + ".pg")
        wd = os.path.join(tmp, tag + ".d")
        os.makedirs(wd, exist_ok=True)
        cmd = base_cmd(job, exe, seed, tier) + [
            "--cases", str(cases), "--start", str(start), "--shard", str(shard),
            "--nshards", str(nshards), "--out", out, "--progress", prog]
        rc, err, state = run_one(cmd, env, prog, hang_s, deadline, wd)
        if os.path.exists(out):
            try:
                res.merge(json.load(open(out)), job)
            except ValueError:
                pass
        shutil.rmtree(wd, ignore_errors=True)
        if state == "deadline":
            res.truncated = True
            return
        at = read_progress(prog)
        if state == "hang":
            # confirm in isolation with a generous limit before judging
            cmd1 = base_cmd(job, exe, seed, tier) + ["--case", str(at), "--progress", prog]
            os.makedirs(wd, exist_ok=True)
            rc1, err1, st1 = run_one(cmd1, env, prog + "1", 3 * hang_s, max(deadline, time.time() + 3 * hang_s + 5), wd)
            if st1 == "hang":
                res.crash(job, "no-termination", at, "case %d did not finish within %d s" % (at, 3 * hang_s))
            hangs += 1
            if hangs > 2:
                return
        elif rc != 0:
            sig = crash_signature(err, rc)
            if rc == 66 and at < 0:  # TSan: races were reported but the run went on to the end
                for rep in split_tsan(err):
                    res.crash(job, crash_signature(rep, rc), -1, rep)
                return
            res.crash(job, sig, at, err[:6000])
            crashes += 1
            if crashes > job.get("max_crashes", 12):
                return
        else:
            return
        if at < 0:
            return
        start = at + 1


def split_tsan(err):
    parts = re.split(r"(?==+\n?WARNING: ThreadSanitizer)", err)
    return [p for p in parts if "WARNING: ThreadSanitizer" in p] or [err]


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("status") == "open"]


def is_known(known, prop, job, f):
    for k in known:
        if k["property"] != prop:
            continue
        if k.get("job") and not fnmatch.fnmatch(job, k["job"]):
            continue
        if k["sig"] == f["sig"]:
            return k
    return None


def check(prop, tier, seed):
    P = spec.PROPS[prop]
    jobs = spec.jobs(prop, tier)
    budget = 780 if tier == "quick" else P.get("thorough_s", 3600)
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    log("property", prop, "tier", tier, "jobs", len(jobs))
    exes, notes = {}, []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = {ex.submit(build, j): j for j in sorted(jobs, key=lambda j: -j.get("w", 1))}
        for f in cf.as_completed(futs):
            j = futs[f]
            path, s, msg = f.result()
            if path:
                exes[j["name"]] = path
                log("  %s %s in %.1fs" % (msg, j["name"], s))
            else:
                notes.append("harness %s does not compile against this tree" % j["name"])
                log("  NOTE: harness", j["name"], "does not compile:\n" + msg)
    if not exes:
        log("no harness compiles: no answer")
        return 2
    res = Result()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    deadline = T0 + budget
    tasks = []
    for j in jobs:
        if j["name"] not in exes:
            continue
        cases = j["cases"][0 if tier == "quick" else 1]
        ns = j.get("shards", NCPU)
        ns = max(1, min(ns, cases))
        for s in range(ns):
            tasks.append((j, cases, s, ns))
    tasks.sort(key=lambda t: -t[0].get("w", 1))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fs = [ex.submit(run_shard, j, exes[j["name"]], seed, tier, c, s, n, res, deadline, tmp) for j, c, s, n in tasks]
        for f in fs:
            f.result()
    shutil.rmtree(tmp, ignore_errors=True)
    # ---- judge
    known = load_known()
    viol, knownhits = {}, {}
    for (jn, sig), cnt in sorted(res.fail_count.items()):
        ex = [f for f in res.fails if f["job"] == jn and f["sig"] == sig]
        f = ex[0] if ex else {"sig": sig, "job": jn, "case": -1, "detail": "", "desc": ""}
        k = is_known(known, prop, jn, f)
        if k:
            knownhits[k["id"]] = (k, knownhits.get(k["id"], (k, 0))[1] + cnt)
        else:
            viol[(jn, sig)] = (f, cnt, ex)
    # mandatory observations: the monitors must have seen what they exist for
    missing = []
    if not viol and not res.truncated and not notes:
        for pat, least in P.get("must_see", {}).items():
            tot = sum(v for k, v in res.counters.items() if fnmatch.fnmatch(k, pat))
            if tot < least:
                missing.append("%s: %d < %d" % (pat, tot, least))
    for k, (kf, cnt) in sorted(knownhits.items()):
        print("KNOWN-FINDING: property=%s %s (%d observations)" % (prop, kf["what"], cnt), flush=True)
    # ---- evidence
    viol_list = []
    rdir = os.path.join(EVID, "replay")
    for n, ((jn, sig), (f, cnt, ex)) in enumerate(sorted(viol.items())):
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%s-%d.json" % (prop, tier, n))
        json.dump({"property": prop, "job": jn, "sig": sig, "count": cnt, "seed": seed, "tier": tier,
                   "case": f["case"], "detail": f["detail"], "desc": f["desc"],
                   "rerun": "python3 %s/check.py %s --replay %s" % (VERIF, prop, rp)}, open(rp, "w"), indent=1)
        viol_list.append({"job": jn, "sig": sig, "count": cnt, "case": f["case"], "desc": f["desc"][:500],
                          "detail": f["detail"][:800], "replay": rp})
    wall = time.time() - T0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": res.evals,
            "distinct_nontrivial": len(res.hashes),
            "rule": P["rule"],
            "samples": res.samples[:12] or ["(none)"],
            "events": dict(sorted(res.counters.items())),
            "maxima": dict(sorted(res.maxima.items())),
            "jobs": [{"name": j["name"], "src": j["src"], "sanitizer": j.get("san", "none"), "wrap": j.get("wrap", ""),
                      "defs": j.get("defs", []), "cases": j["cases"][0 if tier == "quick" else 1]} for j in jobs],
            "truncated_by_time": res.truncated,
            "known_findings_seen": sorted(knownhits),
        },
        "assumptions": P.get("assumptions", []) + notes,
        "wall_s": round(wall, 1),
        "violations": viol_list,
    }
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    log("evaluations=%d distinct=%d violations=%d known=%d%s" % (
        res.evals, len(res.hashes), len(viol), len(knownhits), " TRUNCATED" if res.truncated else ""))
    if viol:
        for v in viol_list:
            log("  %s [%s] x%d case=%s\n      %s\n      %s" % (v["sig"], v["job"], v["count"], v["case"], v["detail"][:600].replace("\n", "\n      "), v["desc"]))
        print("VIOLATION property=%s replay=%s" % (prop, viol_list[0]["replay"]), flush=True)
        return 1
    if missing:
        log("the workload no longer reaches what the monitors must observe:", "; ".join(missing))
        if P.get("must_see_is_violation"):
            rp = os.path.join(EVID, "replay", prop + "-reach.json")
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            json.dump({"property": prop, "missing": missing}, open(rp, "w"))
            print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
            return 1
    return 0


def replay(prop, path):
    r = json.load(open(path))
    jobs = [j for j in spec.jobs(prop, r["tier"]) if j["name"] == r["job"]]
    exe, s, msg = build(jobs[0])
    if not exe:
        print(msg)
        return 2
    cmd = base_cmd(jobs[0], exe, r["seed"], r["tier"]) + ["-v", "--case", str(r["case"])]
    print("+", shlex.join(cmd), flush=True)
    return subprocess.run(cmd, env=job_env(jobs[0])).returncode


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "--list":
        for p in sorted(spec.PROPS):
            print(p, [j["name"] for j in spec.jobs(p, "quick")])
        return 0
    if a[0] == "--prebuild":
        seen, todo = set(), []
        for p in sorted(spec.PROPS):
            for j in spec.jobs(p, "quick"):
                if j["name"] not in seen:
                    seen.add(j["name"])
                    todo.append(j)
        bad = 0
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for j, (path, s, msg) in zip(todo, ex.map(build, todo)):
                log(j["name"], "%.1fs" % s, "ok" if path else "FAILED\n" + msg)
                bad += not path
        return 1 if bad else 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
            i += 2
        elif a[i] == "--seed":
            seed = int(a[i + 1])
            i += 2
        elif a[i] == "--replay":
            return replay(prop, a[i + 1])
        else:
            print("unknown argument", a[i])
            return 2
    return check(prop, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
