#!/usr/bin/env python3
"""Build and run the monitors of one property against /repo's working tree.

usage: run_check.py CNN [quick|thorough]

Every harness/CNN_*.cpp is compiled with sanitizers against /repo/include and
its generated cases are run in child processes.  Oracle mismatches, sanitizer
reports, aborts, escaping exceptions, leaks and (re-confirmed) hangs all become
violation keys; keys listed in known_findings.txt are reported as such, any
other one is a VIOLATION.
"""
import concurrent.futures as cf
import glob
import json
import mmap
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
HZ = os.sysconf("SC_CLK_TCK")
NCPU = min(8, os.cpu_count() or 1)

BASE = ["-g1", "-fno-omit-frame-pointer", "-w", "-I", os.path.join(REPO, "include"),
        "-I", os.path.join(VERIF, "harness"), "-pthread"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fsized-deallocation"]
TSAN = ["-fsanitize=thread"]

CONFIGS = {
    # name: (compiler, flags)
    "asan": ("clang++", ["-O1"] + ASAN),
    "asan-O2-ndebug": ("clang++", ["-O2", "-DNDEBUG"] + ASAN),
    "asan-gcc": ("g++", ["-O1"] + ASAN),
    "tsan": ("clang++", ["-O1"] + TSAN),
    "tsan-O2": ("clang++", ["-O2"] + TSAN),
    "plain-O2": ("clang++", ["-O2"]),
}

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=0:"
                       "max_allocation_size_mb=2048:hard_rss_limit_mb=6000:detect_stack_use_after_return=1:"
                       "handle_abort=1:symbolize=1:strict_string_checks=1")
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
ENV["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=97:second_deadlock_stack=1"
ENV.pop("VF_REPLAY", None)


def log(*a):
    print(*a, flush=True)


def directives(path):
    d = {}
    with open(path) as f:
        for line in f:
            m = re.match(r"//\s*VF-([A-Z]+):\s*(.*?)\s*$", line)
            if m:
                d[m.group(1)] = m.group(2)
            elif line.startswith("#include"):
                break
    return d


def compile_one(src, cfg, out, d):
    cc, flags = CONFIGS[cfg]
    std = d.get("STD", "c++23")
    extra = d.get("FLAGS", "").split()
    cmd = [cc, "-std=" + std] + flags + BASE + extra + [src] + [os.path.join(os.path.dirname(src), x) for x in d.get("EXTRA", "").split()] + ["-o", out] + d.get("LIBS", "").split()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout, " ".join(cmd)


def toolchain_ok(tmp):
    src = os.path.join(tmp, "sanity.cpp")
    with open(src, "w") as f:
        f.write('#include "vf.h"\n#include <vector>\nVF_FAMILY(x,1,1){}\nVF_MAIN()\n')
    rc, out, _ = compile_one(src, "asan", os.path.join(tmp, "sanity"), {})
    return rc == 0


def cpu_of(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            parts = f.read().rsplit(")", 1)[1].split()
        return (int(parts[11]) + int(parts[12])) / HZ
    except Exception:
        return None


SAN_RE = [
    (re.compile(r"ERROR: AddressSanitizer: ([A-Za-z0-9_\-]+)"), "asan"),
    (re.compile(r"WARNING: ThreadSanitizer: ([^\n(]+)"), "tsan"),
    (re.compile(r"FATAL: ThreadSanitizer: ([^\n(]+)"), "tsan"),
    (re.compile(r"runtime error: ([^\n]*)"), "ubsan"),
    (re.compile(r"(terminate called|libc\+\+abi: terminating)"), "terminate"),
    (re.compile(r"Assertion .* failed"), "assert"),
]


def classify(err, rc):
    for rx, kind in SAN_RE:
        m = rx.search(err)
        if m:
            t = m.group(1) if m.groups() else ""
            if kind == "ubsan":
                t = re.sub(r"0x[0-9a-f]+|-?\d+", "N", t)
                t = re.sub(r"'[^']*'", "T", t)[:60]
            return (kind + "-" + t.strip()).replace(" ", "_")
    if rc < 0:
        return "signal%d" % -rc
    return "exit%d" % rc


class Job:
    def __init__(self, exe, harness, cfg, fam, a, b):
        self.exe, self.harness, self.cfg, self.fam, self.a, self.b = exe, harness, cfg, fam, a, b


class Ctx:
    pass


def run_range(ctx, job, a, b, tag):
    """Run cases [a,b). Returns (status, result|None, info)."""
    base = os.path.join(ctx.tmp, "j_%s_%s" % (job.fam, tag))
    prog, out, errf = base + ".p", base + ".json", base + ".err"
    cwd = base + ".d"
    os.makedirs(cwd, exist_ok=True)
    with open(prog, "wb") as f:
        f.write(b"\0" * 4096)
    if os.path.exists(out):
        os.unlink(out)
    argv = [job.exe, "run", job.fam, str(a), str(b), str(ctx.seed), prog, out]
    if ctx.tier == "thorough":
        argv.append("thorough")
    with open(errf, "wb") as ef:
        p = subprocess.Popen(argv, stdout=ef, stderr=ef, stdin=subprocess.DEVNULL, env=ENV, cwd=cwd,
                             start_new_session=True)
        last, last_cpu, last_wall = None, 0.0, time.time()
        hang = False
        delay = 0.01
        while True:
            try:
                p.wait(timeout=delay)
                break
            except subprocess.TimeoutExpired:
                delay = min(delay * 2, 1.0)
            with open(prog, "rb") as f:
                beats = f.read(16)
            cpu = cpu_of(p.pid)
            if beats != last:
                last, last_cpu, last_wall = beats, cpu or 0.0, time.time()
            elif cpu is not None and (cpu - last_cpu > ctx.hang_cpu or time.time() - last_wall > ctx.hang_wall):
                hang = True
                try:
                    os.killpg(p.pid, 9)
                except Exception:
                    pass
                p.wait()
                break
    try:
        os.killpg(p.pid, 9)
    except Exception:
        pass
    shutil.rmtree(cwd, ignore_errors=True)
    with open(prog, "rb") as f:
        raw = f.read()
    idx, beats = struct.unpack_from("<QQ", raw, 0)
    op = raw[16:272].split(b"\0")[0].decode("utf8", "replace")
    cx = raw[272:3272].split(b"\0")[0].decode("utf8", "replace")
    with open(errf, "rb") as f:
        err = f.read(200000).decode("utf8", "replace")
    if hang:
        return "hang", None, (idx, op, cx, err)
    if p.returncode == 0 and os.path.exists(out):
        with open(out) as f:
            return "ok", json.load(f), None
    return "crash", None, (idx, op, cx, err, p.returncode)


def run_job(ctx, job):
    results, viol = [], []
    a, n, crashes = job.a, 0, 0
    while a < job.b:
        n += 1
        tag = "%s_%s_%d_%d_%d" % (os.path.basename(job.exe), job.cfg, job.a, a, n)
        st, res, info = run_range(ctx, job, a, job.b, tag)
        if st == "ok":
            results.append(res)
            for f in res["failures"]:
                viol.append((f["key"], f["detail"], f["idx"], job))
            break
        idx, op, cx = info[0], info[1], info[2]
        # results of the cases before the crash
        if idx > a:
            st0, res0, _ = run_range(ctx, job, a, idx, tag + "_pre")
            if st0 == "ok":
                results.append(res0)
                for f in res0["failures"]:
                    viol.append((f["key"], f["detail"], f["idx"], job))
        # confirm
        st2, res2, info2 = run_range(ctx, job, idx, idx + 1, tag + "_re")
        where = job.fam + "/" + (op or "case")
        if st == "hang":
            if st2 == "hang":
                viol.append((where + "/hang", "no progress; ctx: " + cx, idx, job))
            else:
                ctx.notes.append("transient stall in %s idx %d (not reproduced)" % (where, idx))
        else:
            kind = classify(info[3], info[4])
            if st2 == "crash":
                kind = classify(info2[3], info2[4])
                where = job.fam + "/" + (info2[1] or "case")
                viol.append((where + "/" + kind, info2[3][:6000] + "\nctx: " + info2[2], idx, job))
            elif kind.startswith(("asan", "ubsan", "tsan")):
                viol.append((where + "/" + kind, info[3][:6000] + "\nctx: " + cx, idx, job))
            elif st2 == "ok":
                ctx.notes.append("transient exit %s in %s idx %d (not reproduced)" % (kind, where, idx))
            else:
                viol.append((where + "/hang", "no progress", idx, job))
        if st2 == "ok":
            results.append(res2)
            for f in res2["failures"]:
                viol.append((f["key"], f["detail"], f["idx"], job))
        crashes += 1
        if crashes >= 4:
            ctx.notes.append("%s: gave up after %d crashes" % (job.fam, crashes))
            break
        a = idx + 1
    return results, viol


def load_known(prop):
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == prop:
                    known.append((m.group(2), m.group(3)))
    return known


def meta_of(prop):
    with open(os.path.join(VERIF, "MANIFEST.json")) as f:
        man = json.load(f)
    for c in man["checks"]:
        if c["property"] == prop:
            return c
    return {"level": "exploration", "technique": ""}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None  # family filter (debugging)
    ctx = Ctx()
    ctx.tier = tier
    ctx.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ctx.hang_cpu = 40.0
    ctx.hang_wall = 240.0
    ctx.notes = []
    ctx.tmp = tempfile.mkdtemp(prefix="vf_%s_" % prop)
    t0 = time.time()
    try:
        return body(ctx, prop, only, t0)
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)


def body(ctx, prop, only, t0):
    tier = ctx.tier
    srcs = sorted(glob.glob(os.path.join(VERIF, "harness", prop + "_*.cpp")))
    if not srcs:
        log("no harness for", prop)
        return 3
    builds = []
    for s in srcs:
        d = directives(s)
        if tier == "quick":
            cfgs = d.get("QUICK", "asan").split()
        else:
            cfgs = d.get("THOROUGH", "asan asan-O2-ndebug").split()
        for c in cfgs:
            if c != "none":
                builds.append((s, c, d))
    viol = []
    exes = []

    def do_build(i):
        s, c, d = builds[i]
        out = os.path.join(ctx.tmp, os.path.basename(s)[:-4] + "." + c)
        return (s, c, out) + compile_one(s, c, out, d)

    with cf.ThreadPoolExecutor(NCPU) as ex:
        for s, c, out, rc, msg, cmd in ex.map(do_build, range(len(builds))):
            if rc != 0:
                if not toolchain_ok(ctx.tmp):
                    log("harness build failure: toolchain broken\n" + msg[:3000])
                    return 3
                errs = [l for l in msg.splitlines() if "error:" in l or "Error" in l]
                if not errs or os.environ.get("VF_DEBUG"):
                    log(msg[:6000])
                if not errs:
                    return 3
                viol.append(("compile:" + os.path.basename(s) + ":" + c,
                             "public API use no longer compiles:\n" + "\n".join(errs[:20]) + "\n" + cmd, 0, None))
            else:
                exes.append((s, c, out))
    build_s = time.time() - t0

    jobs = []
    for s, c, exe in exes:
        p = subprocess.run([exe, "list"], stdout=subprocess.PIPE, text=True, env=ENV)
        if p.returncode != 0:
            viol.append(("startup:" + os.path.basename(s), "static initialisation failed", 0, None))
            continue
        for line in p.stdout.split("\n"):
            if not line.strip():
                continue
            fam, q, t = line.split()
            if only and not re.match(only, fam):
                continue
            n = int(q) if tier == "quick" else int(t)
            if tier == "thorough" and c != builds[0][1] and n > 10:
                n = max(int(q), n // 3)
            shards = 1 if n < 200 else (4 if n < 4000 else NCPU)
            if tier == "thorough" and n >= 64:
                shards = 32
            for k in range(shards):
                a, b = n * k // shards, n * (k + 1) // shards
                if a < b:
                    jobs.append(Job(exe, os.path.basename(s), c, fam, a, b))
    results = []
    times = {}
    lock = threading.Lock()

    def timed(j):
        t = time.time()
        r = run_job(ctx, j)
        with lock:
            times[j.fam] = times.get(j.fam, 0) + time.time() - t
        return r

    with cf.ThreadPoolExecutor(NCPU) as ex:
        for res, v in ex.map(timed, jobs):
            results += res
            viol += v

    cases = sum(r["cases"] for r in results)
    checks = sum(r["checks"] for r in results)
    distinct = set()
    counters, fams, samples = {}, {}, []
    for r in results:
        distinct.update(r["distinct"])
        fams[r["family"]] = fams.get(r["family"], 0) + r["cases"]
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
    seen = set()
    for r in results:
        if r["family"] not in seen and r["samples"] and len(samples) < 12:
            seen.add(r["family"])
            samples.append(r["samples"][0])
    if not samples:
        samples = ["%s: %d cases" % kv for kv in list(fams.items())[:5]]

    # dedupe by key
    bykey = {}
    for key, detail, idx, job in viol:
        bykey.setdefault(key, (detail, idx, job))
    known = load_known(prop)
    used = {}
    new = []
    for key, (detail, idx, job) in sorted(bykey.items()):
        hit = None
        for pat, what in known:
            if key == pat:
                hit = (pat, what)
        if hit:
            used[hit[0]] = hit[1]
        else:
            new.append((key, detail, idx, job))
    for pat in sorted(used):
        log("KNOWN-FINDING: property=%s %s [%s]" % (prop, used[pat], pat))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "evidence", "replay")
    for i, (key, detail, idx, job) in enumerate(new[:20]):
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s_%d.json" % (prop, i))
        with open(rp, "w") as f:
            json.dump({"property": prop, "key": key, "detail": detail, "idx": idx, "seed": ctx.seed, "tier": tier,
                       "harness": job.harness if job else None, "config": job.cfg if job else None,
                       "family": job.fam if job else None,
                       "replay": "VERIF_SEED=%d python3 tools/replay.py %s" % (ctx.seed, rp)}, f, indent=1)
        log("VIOLATION property=%s replay=%s" % (prop, rp))
        log("   key: %s" % key)
        log("   " + detail[:int(os.environ.get("VF_DETAIL", "700"))].replace("\n", "\n   "))
    for n in ctx.notes:
        log("note:", n)
    if cases == 0 and not new:
        log("nothing was observed")
        return 3
    m = meta_of(prop)
    ev = {
        "property": prop, "tier": tier, "seed": ctx.seed, "level": m.get("level", "exploration"),
        "coverage": {
            "evaluations": cases,
            "distinct_nontrivial": len(distinct),
            "rule": "a case is one seeded generated workload (inputs or operation sequence) executed on the "
                    "instrumented build; it is non-trivial when it reached the behaviour under test (the harness "
                    "marks it), distinct by the hash of its inputs",
            "oracle_checks": checks,
            "cases_per_family": fams,
            "observed": counters,
            "builds": ["%s [%s]" % (os.path.basename(s), c) for s, c, _ in exes],
            "samples": samples,
            "inconclusive": ctx.notes,
            "known_findings_observed": sorted(used),
        },
        "assumptions": ["compilers, sanitizer runtimes and libstdc++ of this sandbox", m.get("level_note", "")],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if os.environ.get("VF_TIMES"):
        for k, v in sorted(times.items(), key=lambda kv: -kv[1])[:15]:
            log("   time %-40s %.2fs" % (k, v))
    log("%s %s: %d cases, %d oracle checks, %d distinct non-trivial, build %.1fs, total %.1fs, violations %d" %
        (prop, tier, cases, checks, len(distinct), build_s, time.time() - t0, len(new)))
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
