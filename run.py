#!/usr/bin/env python3
"""Builds the harnesses from /repo's working tree and decides one property.

  run.py C01 [--tier quick|thorough] [--replay FILE] [--build-only]
exit 0: held on everything explored; 1: VIOLATION; 2: error of the check.
"""
import json, os, subprocess, sys, time, shutil, signal, fcntl, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
sys.path.insert(0, HERE)
from plan import PLAN, BINARIES, LEVEL_ASSUMPTIONS  # noqa: E402

ENV = dict(os.environ)
ENV.update({
    "HOME": "/root", "LC_ALL": "C.UTF-8",
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_rmaps_base_oversubscribe": "1",
    "OMPI_MCA_hwloc_base_binding_policy": "none",
    "OMPI_MCA_mpi_yield_when_idle": "1",
    "OMPI_MCA_pml": "ob1", "OMPI_MCA_btl": "self,vader",
    "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
    "OMPI_MCA_plm": "isolated", "OMPI_MCA_oob": "tcp",
    "OMPI_MCA_oob_tcp_if_include": "lo",
    "DEAL_II_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1",
})
JOBS = 8

INCLUDES = """/usr/lib/x86_64-linux-gnu/openmpi/include
/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi /usr/include/petsc
/usr/include/trilinos /usr/include/hdf5/openmpi /usr/include/scotch
/usr/include/suitesparse /usr/include/slepc /usr/include/opencascade""".split()

FLAGS = ("-std=c++17 -O0 -g0 -w -DNDEBUG -D_GLIBCXX_ASSERTIONS -pthread "
         "-isystem /opt/vp/compat/include "
         "-include boost/container_hash/hash.hpp "
         "-include deal.II/base/multithread_info.h "
         "-include deal.II/distributed/tria_base.h "
         "-include deal.II/lac/vector.h "
         "-DBOOST_PROGRAM_OPTIONS_DYN_LINK -DBOOST_PROGRAM_OPTIONS_NO_LIB")


def link_libs():
    with open(os.path.join(HERE, "link_libs.txt")) as f:
        return f.read().strip()


def sh(cmd, **kw):
    return subprocess.run(cmd, **kw)


def repo_sources():
    """All host sources of mfmg."""
    out = []
    for d, _, files in os.walk(os.path.join(REPO, "source")):
        out += [os.path.relpath(os.path.join(d, f), REPO)
                for f in files if f.endswith(".cc") and "cuda" not in f]
    return sorted(out)


def generate(compiler, everything=False):
    os.makedirs(BUILD, exist_ok=True)
    L = ["ninja_required_version = 1.3", "builddir = %s" % BUILD,
         "cxx = %s" % compiler,
         "flags = %s" % FLAGS,
         "incs = -I%s/harness -I%s/include %s" % (
             HERE, REPO, " ".join("-isystem " + d for d in INCLUDES)),
         "libs = %s" % link_libs(),
         "rule cxx",
         "  command = $cxx $flags $extra $incs -MD -MF $out.d -c $in -o $out",
         "  depfile = $out.d", "  deps = gcc",
         "rule link",
         "  command = $cxx -fuse-ld=gold $extra -pthread -Wl,--as-needed $in -o $out $libs",
         ""]
    done = set()
    for name, b in BINARIES.items():
        objs = []
        extra = b.get("flags", "").replace("@HERE@", HERE)
        tag = b.get("tag", "std")
        srcs = [(s, os.path.join(HERE, "harness", s)) for s in b["harness"]]
        if everything:
            # sources may have been added or code moved between them
            srcs += [(g, os.path.join(REPO, g)) for g in repo_sources()]
            if "abi_shim.cc" not in b["harness"]:
                srcs.append(("abi_shim.cc", os.path.join(HERE, "harness", "abi_shim.cc")))
        for g in [] if everything else b.get("repo", []):
            if g.endswith("/"):
                d = os.path.join(REPO, g)
                srcs += [(g + f, os.path.join(d, f)) for f in
                         sorted(os.listdir(d)) if f.endswith(".cc")]
            else:
                srcs.append((g, os.path.join(REPO, g)))
        for rel, path in srcs:
            o = os.path.join(BUILD, tag, rel.replace("/", "_") + ".o")
            objs.append(o)
            if o not in done:
                done.add(o)
                L.append("build %s: cxx %s" % (o, path))
                x = extra
                if rel in ("dense.cc", "scheduler.cc"):
                    x = "-O2"
                if rel == "scheduler.cc":
                    x += " -fno-threadsafe-statics -I%s/overlay" % HERE
                L.append("  extra = " + x)
                if b.get("compiler"):
                    L.append("  cxx = " + b["compiler"])
        L.append("build %s: link %s" % (os.path.join(BUILD, name), " ".join(objs)))
        L.append("  extra = %s" % b.get("ldflags", ""))
    text = "\n".join(L) + "\n"
    fn = os.path.join(BUILD, "build.ninja")
    old = open(fn).read() if os.path.exists(fn) else None
    if old != text:
        with open(fn, "w") as f:
            f.write(text)


def forget_changed():
    """ninja goes by time stamps; a tree that was swapped for another one may
    carry older ones. Remove what was built from sources that changed."""
    fn = os.path.join(BUILD, "sources.json")
    now = {}
    for root, top in ((REPO, "include"), (REPO, "source"), (HERE, "harness"),
                      (HERE, "overlay")):
        for d, _, files in os.walk(os.path.join(root, top)):
            for f in files:
                p = os.path.join(d, f)
                with open(p, "rb") as fh:
                    now[p] = hashlib.sha1(fh.read()).hexdigest()
    try:
        old = json.load(open(fn))
    except (OSError, ValueError):
        old = {}
    if old != now:
        changed = {p for p in set(old) | set(now) if old.get(p) != now.get(p)}
        gone = set(old) ^ set(now)
        out = None
        r = sh(["ninja", "-C", BUILD, "-f", os.path.join(BUILD, "build.ninja"),
                "-t", "deps"], stdout=subprocess.PIPE,
               stderr=subprocess.DEVNULL, text=True, env=ENV) \
            if os.path.exists(os.path.join(BUILD, "build.ninja")) else None
        if r is None or r.returncode != 0 or gone:
            for d, _, files in os.walk(BUILD):
                for f in files:
                    if f.endswith(".o"):
                        os.remove(os.path.join(d, f))
        else:
            for line in r.stdout.split("\n"):
                if line and not line.startswith(" "):
                    out = line.split(":")[0]
                elif out and line.strip() in changed and os.path.exists(out):
                    os.remove(out)
        with open(fn, "w") as f:
            json.dump(now, f)


def build(binaries):
    forget_changed()
    targets = [os.path.join(BUILD, b) for b in binaries]
    log = ""
    for compiler, everything in (("clang++", False), ("clang++", True),
                                 ("g++", True)):
        generate(compiler, everything)
        r = sh(["ninja", "-C", BUILD, "-f", os.path.join(BUILD, "build.ninja"),
                "-j%d" % JOBS] + targets,
               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
        if r.returncode == 0:
            return compiler
        lines = [x[:400] for x in r.stdout.split("\n")
                 if not x.startswith("[") and " -std=c++17 " not in x]
        log += "--- " + compiler + "\n" + "\n".join(lines[:60]) + "\n"
    sys.stdout.write(log[-6000:])
    print("ERROR: harness build failed")
    sys.exit(2)


def command(job, out, known, replay=None):
    exe = os.path.join(BUILD, job["bin"])
    cmd = []
    if job["ranks"] > 1:
        cmd += ["/usr/bin/mpiexec", "-n", str(job["ranks"])]
    cmd += [exe, "--prop", job["prop"], "--tier", job["tier"], "--out", out,
            "--shard", job["shard"]]
    for k, v in job.get("opts", {}).items():
        cmd += ["--" + k, str(v)]
    if job.get("deadline"):
        cmd += ["--deadline", str(job["deadline"])]
    if known:
        cmd += ["--known", known]
    if replay is not None:
        cmd += ["--replay", replay]
    return cmd


def start(job, out, known, replay=None):
    d = out + ".d"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    env = dict(ENV)
    env["TMPDIR"] = d
    for k, v in job.get("env", {}).items():
        env[k] = v
    for ext in ("", ".case", ".viol"):
        try:
            os.remove(out + ext)
        except OSError:
            pass
    log = open(out + ".log", "w")
    return subprocess.Popen(command(job, out, known, replay), stdout=log,
                            stderr=subprocess.STDOUT, cwd=d, env=env,
                            start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def finished_ok(p, out):
    return p.returncode == 0 and os.path.exists(out)


def replay_alone(job, out, known, path, limit):
    p = start(job, out, known, replay=path)
    try:
        p.wait(limit)
        timed_out = False
    except subprocess.TimeoutExpired:
        timed_out = True
    kill(p)
    return p.returncode, timed_out


def read_case(out):
    try:
        with open(out + ".case") as f:
            lines = f.read().split("\n")
        return lines[0], lines[1] if len(lines) > 1 else ""
    except OSError:
        return None, ""


def load_findings(prop):
    """known_findings.txt: '<prop> | <key> | <text>' and 'fixed: ...' lines."""
    keys, texts = [], {}
    fn = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            p, key, text = [x.strip() for x in line.split("|", 2)]
            if p == prop:
                keys.append(key)
                texts[key] = text
    return keys, texts


def write_replay(prop, job, path, case, key, message, jobs=None):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    fn = os.path.join(d, "%s.json" % prop)
    with open(fn, "w") as f:
        json.dump({"property": prop, "job": job, "jobs": jobs, "path": path, "case": case,
                   "key": key, "message": message,
                   "how": "python3 %s %s --replay %s" % (
                       os.path.join(HERE, "run.py"), prop, fn)}, f, indent=1)
    return fn


def differing_records(results):
    """What two processes with different histories computed differently."""
    seen = {}
    for job, s in results:
        for key, value in s.get("records", {}).items():
            k = (job["ranks"], key)
            if k not in seen:
                seen[k] = (job, value)
            elif abs(seen[k][1] - value) > 1e-9 * (1 + abs(value)):
                a, b = seen[k][0], job
                return (a, b, key, "%s on %d ranks: the shards %s %s and %s %s, which "
                        "differ in what they did before, got different results" % (
                            key, job["ranks"], a["shard"], a["opts"] or "",
                            b["shard"], b["opts"] or ""))
    return None


def tail(fn, n=3000):
    try:
        return open(fn, errors="replace").read()[-n:]
    except OSError:
        return ""


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    build_only = False
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
            i += 2
        elif a[i] == "--replay":
            replay = a[i + 1]
            i += 2
        elif a[i] == "--build-only":
            build_only = True
            i += 1
        else:
            print("unknown argument", a[i])
            return 2
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if prop == "all":
        build(list(BINARIES))
        return 0
    plan = PLAN[prop]
    jobs = []
    for g in plan["jobs"]:
        if g.get("tier") and g["tier"] != tier:
            continue
        n = g.get("shards", {}).get(tier, 1) if isinstance(g.get("shards"), dict) else g.get("shards", 1)
        for s in range(n):
            jobs.append({"prop": prop, "tier": tier, "bin": g["bin"],
                         "ranks": g.get("ranks", 1), "shard": "%d/%d" % (s, n),
                         "opts": g.get("opts", {}), "env": g.get("env", {}),
                         "deadline": g.get("deadline", {}).get(tier, 0)})
    compiler = build(sorted({j["bin"] for j in jobs}))
    t_build = time.time() - t0
    if build_only:
        return 0
    work = os.path.join(BUILD, "work-%s-%s" % (prop, tier))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    keys, texts = load_findings(prop)
    known = ""
    if keys:
        known = os.path.join(work, "known.txt")
        with open(known, "w") as f:
            f.write("\n".join(keys) + "\n")
    if replay:
        r = json.load(open(replay))
        if r.get("jobs"):
            # the result of a case depends on what the process did before
            got = []
            for k, j in enumerate(r["jobs"]):
                out = os.path.join(work, "replay%d" % k)
                p = start(j, out, known)
                p.wait()
                got.append((j, json.load(open(out))))
            bad = differing_records(got)
            if bad:
                print(bad[3])
                print("VIOLATION property=%s replay=%s" % (prop, replay))
                return 1
            print("replay: property held")
            return 0
        out = os.path.join(work, "replay")
        rc, to = replay_alone(r["job"], out, known, r["path"], 600)
        sys.stdout.write(tail(out + ".log"))
        if rc == 0 and not to:
            print("replay: property held")
            return 0
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1

    case_limit = plan.get("case_limit", {}).get(tier, 150)
    # heaviest first
    jobs.sort(key=lambda j: -j["ranks"])
    pending = list(enumerate(jobs))
    running, results = [], []
    violation = None
    retried = set()

    def diagnose(idx, job, out, why):
        """A run that ended in no verdict: replay its last case alone."""
        nonlocal violation
        path, case = read_case(out)
        log = tail(out + ".log")
        if path is None:
            sys.stdout.write(log)
            print("ERROR: %s before the first case (rc)" % why)
            return "error"
        rout = out + ".again"
        rc, to = replay_alone(job, rout, known, path, max(2 * case_limit, 300))
        if rc != 0 or to:
            msg = why + (" (confirmed: timed out again)" if to else
                         " (confirmed: exit %s again)" % rc)
            if os.path.exists(rout + ".viol"):
                v = json.load(open(rout + ".viol"))
                msg = v["message"]
                path, case = v["path"], v["case"]
            violation = (job, path, case, "crash", msg + "\n" + tail(rout + ".log", 1500))
            return "violation"
        if idx not in retried:
            retried.add(idx)
            pending.append((idx, job))
            return "retry"
        violation = (job, path, case, "crash", why + " (twice in the shard, not alone)\n" + log)
        return "violation"

    error = False
    while (pending or running) and not violation and not error:
        used = sum(min(r["job"]["ranks"], JOBS) for r in running)
        while pending:
            idx, job = pending[0]
            if running and used + min(job["ranks"], JOBS) > JOBS:
                # try a smaller one
                k = next((k for k, (_, j) in enumerate(pending)
                          if used + j["ranks"] <= JOBS), None)
                if k is None:
                    break
                idx, job = pending.pop(k)
            else:
                pending.pop(0)
            out = os.path.join(work, "job%d" % idx)
            running.append({"idx": idx, "job": job, "out": out,
                            "p": start(job, out, known), "t": time.time()})
            used += min(job["ranks"], JOBS)
        time.sleep(0.05)
        for r in list(running):
            rc = r["p"].poll()
            if rc is None:
                last = r["t"]
                try:
                    last = max(last, os.path.getmtime(r["out"] + ".case"))
                except OSError:
                    pass
                if time.time() - last > case_limit:
                    kill(r["p"])
                    running.remove(r)
                    for q in running:
                        os.killpg(q["p"].pid, signal.SIGSTOP)
                    d = diagnose(r["idx"], r["job"], r["out"],
                                 "no progress for %d s" % case_limit)
                    for q in running:
                        os.killpg(q["p"].pid, signal.SIGCONT)
                        q["t"] = time.time()
                    error = error or d == "error"
                continue
            running.remove(r)
            if rc == 0 and os.path.exists(r["out"]):
                results.append((r["job"], json.load(open(r["out"]))))
                continue
            if os.path.exists(r["out"] + ".viol"):
                v = json.load(open(r["out"] + ".viol"))
                # replay before report
                rout = r["out"] + ".again"
                rc2, to = replay_alone(r["job"], rout, known, v["path"], 600)
                if rc2 != 0 or to:
                    violation = (r["job"], v["path"], v["case"], v["key"], v["message"])
                    if os.path.exists(r["out"]):
                        results.append((r["job"], json.load(open(r["out"]))))
                    continue
                if r["idx"] not in retried:
                    retried.add(r["idx"])
                    pending.append((r["idx"], r["job"]))
                    continue
                violation = (r["job"], v["path"], v["case"], v["key"],
                             v["message"] + " (depends on the preceding cases of shard %s)" % r["job"]["shard"])
                continue
            d = diagnose(r["idx"], r["job"], r["out"], "process ended with status %s" % rc)
            error = error or d == "error"
    for r in running:
        kill(r["p"])
    if error:
        return 2

    jobs_of_violation = None
    if not violation:
        bad = differing_records(results)
        if bad:
            jobs_of_violation = bad[:2]
            violation = (bad[0], "-", bad[2], "history", bad[3])
    n_records = sum(len(s.get("records", {})) for _, s in results)
    states, tot = set(), {"executions": 0, "transitions": 0, "checks": 0, "configs": 0}
    samples, known_hit, runs = [], [], {}
    exhaustive = not violation
    for job, s in results:
        states.update((job["ranks"], x) for x in s["states"])
        for k in tot:
            tot[k] += s[k]
        exhaustive = exhaustive and s["exhaustive"]
        for x in s["samples"][:3]:
            if len(samples) < 12:
                samples.append("[%d ranks, %s] %s" % (job["ranks"], job["bin"], x))
        for k in s["known"]:
            if k not in known_hit:
                known_hit.append(k)
        g = "%s, %d ranks %s" % (job["bin"], job["ranks"], job["opts"] or "")
        e = runs.setdefault(g, {"shards": 0, "executions": 0, "configurations": 0, "cpu_s": 0})
        e["shards"] += 1
        e["executions"] += s["executions"]
        e["configurations"] += s["configs"]
        e["cpu_s"] = round(e["cpu_s"] + s["seconds"], 2)
    if not violation and (len(states) < plan.get("min_states", 2)):
        print("ERROR: vacuous exploration: %d states" % len(states))
        return 2
    ev = {"property": prop, "tier": tier,
          "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": "model_checking",
          "coverage": {
              "states": len(states), "transitions": tot["transitions"],
              "traces_validated_against_impl": tot["executions"],
              "comparisons_with_the_reference_model": tot["checks"],
              "configurations": tot["configs"],
              "exhaustive": bool(exhaustive),
              "results_compared_across_process_histories": n_records,
              "rule": plan["rule"], "bounds": plan["bounds"].get(tier, plan["bounds"].get("quick", "")),
              "runs": runs, "samples": samples or ["(violation in the first case)"]},
          "assumptions": LEVEL_ASSUMPTIONS + plan.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2),
          "violations": 1 if violation else 0}
    ev["coverage"]["build_s"] = round(t_build, 1)
    ev["coverage"]["compiler"] = compiler
    ev["coverage"]["known_findings_hit"] = known_hit
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, texts[k]))
    if violation:
        job, path, case, key, msg = violation
        fn = write_replay(prop, job, path, case, key, msg, jobs_of_violation)
        print("%s: %s" % (key, msg))
        print("case: %s (ranks %d)" % (case, job["ranks"]))
        print("VIOLATION property=%s replay=%s" % (prop, fn))
        return 1
    print("%s: held on %d executions, %d states, %d transitions, %d comparisons; "
          "exhaustive=%s; build %.0f s, total %.0f s" % (
              prop, tot["executions"], len(states), tot["transitions"],
              tot["checks"], exhaustive, t_build, time.time() - t0))
    if os.environ.get("VERIF_KEEP") != "1":
        shutil.rmtree(work, ignore_errors=True)
    return 0


if __name__ == "__main__":
    sys.exit(main())
