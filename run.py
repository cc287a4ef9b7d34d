#!/usr/bin/env python3
"""Builds and runs the check of one property against /repo's working tree.

  run.py <ID> [quick|thorough]     decide the property (default: $VERIF_TIER or quick)
  run.py <ID> replay <file>        replay a failing case, verbosely
  run.py build <ID>...             build only

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: the check itself failed.
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "EigenIPC")
BUILD = os.path.join(VERIF, ".build")
EVID = os.environ.get("VERIF_EVIDENCE", VERIF + "/evidence")
sys.path.insert(0, os.path.join(VERIF, "py"))

WRAPS = """shm_open shm_unlink ftruncate posix_fallocate fallocate mmap munmap close
sem_open sem_close sem_unlink sem_wait sem_trywait sem_timedwait sem_clockwait sem_post sem_getvalue
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_clocklock pthread_mutex_unlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast
poll ppoll select pselect nanosleep clock_nanosleep usleep sleep sched_yield clock_gettime gettimeofday time
_ZNSt6chrono3_V212system_clock3nowEv _ZNSt6chrono3_V212steady_clock3nowEv""".split()

CXX = "g++"
CFLAGS = ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-std=c++17", "-DNDEBUG",
          "-I/usr/include/eigen3", "-I" + SRC + "/include", "-I" + SRC + "/src", "-I" + VERIF + "/cpp"]
LFLAGS = ["-fsanitize=address", "-rdynamic", "-lpthread", "-lrt"] + ["-Wl,--wrap=" + w for w in WRAPS]


def digest(paths, extra):
    h = hashlib.sha256("\0".join(extra).encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


def sh(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write("build failed: %s\n%s\n" % (what, r.stdout[-6000:]))
        sys.exit(2)


def build_cpp(pid):
    os.makedirs(BUILD + "/obj", exist_ok=True)
    lib_files = [p for p in glob.glob(SRC + "/include/**/*", recursive=True) + glob.glob(SRC + "/src/**/*", recursive=True) if os.path.isfile(p)]
    lib_headers = [p for p in lib_files if not p.endswith(".cpp")]
    if any(re.search(rb'#include[^\n]*\.cpp', open(p, "rb").read()) for p in lib_files):
        lib_headers = lib_files
    own_headers = glob.glob(VERIF + "/cpp/*.hpp") + glob.glob(VERIF + "/cpp/checks/*.hpp")
    units = [(p, lib_headers) for p in sorted(glob.glob(SRC + "/src/*.cpp"))]
    units += [(VERIF + "/cpp/" + n, own_headers) for n in ("pbt.cpp", "sim.cpp")]
    units += [(VERIF + "/cpp/checks/%s.cpp" % pid, own_headers + lib_headers)]
    # the check and the two big instantiation units first
    units.sort(key=lambda u: 0 if re.search(r"(Server|Client|C\d+)\.cpp$", u[0]) else 1)
    objs, todo = [], []
    for src, deps in units:
        o = "%s/obj/%s-%s.o" % (BUILD, os.path.basename(src)[:-4], digest([src] + deps, [CXX] + CFLAGS))
        objs.append(o)
        if not os.path.exists(o):
            todo.append((src, o))
    def comp(t):
        tmp = t[1] + ".%d.tmp.o" % os.getpid()
        r = subprocess.run([CXX] + CFLAGS + ["-c", t[0], "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            os.replace(tmp, t[1])
        return t[0], r
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count()) as ex:
        for src, r in ex.map(comp, todo):
            if r.returncode != 0:
                print("build failed: %s\n%s" % (src, r.stdout[-6000:]))
                sys.exit(2)
    exe = "%s/%s-%s" % (BUILD, pid, hashlib.sha256("\0".join(objs + LFLAGS).encode()).hexdigest()[:16])
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        sh([CXX] + objs + ["-o", tmp] + LFLAGS, "link " + pid)
        os.replace(tmp, exe)
    return exe


def known_findings(pid):
    """finding id -> text, from lines 'finding: property=<id> id=<kf> <what fails>'"""
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


def load_props():
    return {json.loads(l)["id"]: json.loads(l) for l in open(VERIF + "/properties.jsonl")}


def finish(pid, tier, seed, level, subs, violation, replay, kfs, t0, assumptions, extra=None, unrepro=0):
    """writes the evidence, prints the verdict and returns the exit status"""
    known = known_findings(pid)
    unlisted = [k for k in kfs if k not in known]
    cov = {
        "evaluations": sum(s["evaluations"] for s in subs),
        "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in subs),
        "rule": " | ".join("%s: %s" % (s["name"], s["rule"]) for s in subs),
        "samples": [{"sub": s["name"], "case": x} for s in subs for x in s["samples"][:1]][:12],
        "sub_properties": [{k: s[k] for k in s if k not in ("samples", "rule")} for s in subs],
        "unreproducible_failures": unrepro,
    }
    if subs and all(s.get("exhaustive") for s in subs):
        cov["exhaustive"] = True
    if extra:
        cov.update(extra)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": 1 if (violation or unlisted) else 0}
    os.makedirs(EVID, exist_ok=True)
    with open(EVID + "/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1); f.write("\n")
    for k in known:
        if k in kfs:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    for s in subs:
        print("  %-34s %8d cases, %8d non-trivial (%d distinct)%s  %.1f s" % (s["name"], s["evaluations"], s["nontrivial"], s["distinct_nontrivial"], " [time budget reached]" if s.get("cut") else "", s.get("wall_s", 0)))
    if unrepro:
        print("  note: %d failure(s) did not reproduce and are not reported" % unrepro)
    if violation:
        print(violation)
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if unlisted:
        print("VIOLATION property=%s replay=%s" % (pid, "unlisted-finding:" + ",".join(unlisted)))
        return 1
    print("OK %s: held on %d cases" % (pid, cov["evaluations"]))
    return 0


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "build":
        for p in sys.argv[2:]:
            build_cpp(p)
        return 0
    pid = sys.argv[1]
    mode = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if not os.path.exists(VERIF + "/cpp/checks/%s.cpp" % pid):
        import pycheck
        return pycheck.run(pid, mode, seed, sys.argv[3:], t0, sys.modules[__name__])
    exe = build_cpp(pid)
    tb = time.time() - t0
    if mode == "replay":
        return subprocess.call([exe, "--replay", sys.argv[3]])
    out = BUILD + "/%s.%d.json" % (pid, os.getpid())
    replay = EVID + "/%s.replay" % pid
    budget = float(os.environ.get("VERIF_BUDGET", "150" if mode == "quick" else "700"))
    for f in (replay, out):
        if os.path.exists(f):
            os.unlink(f)
    cmd = [exe, "--seed", str(seed), "--tier", mode, "--jobs", str(os.cpu_count()), "--out", out, "--replay-out", replay, "--budget", str(budget)]
    for a in sys.argv[3:]:
        cmd.append(a)
    r = subprocess.run(cmd)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        print("check of %s failed to run (status %d)" % (pid, r.returncode))
        return 2
    j = json.load(open(out)); os.unlink(out)
    v = j["violation"]
    viol = None
    if v:
        viol = "  %s (case %d): %s" % (v["sub"], v["index"], v["msg"])
    kfs = sorted({k for s in j["subs"] for k in s["kf"]})
    levels = json.load(open(VERIF + "/MANIFEST.json"))["checks"] if os.path.exists(VERIF + "/MANIFEST.json") else []
    level = next((c["level"] for c in levels if c["property"] == pid), "exploration")
    return finish(pid, mode, seed, level, j["subs"], viol, replay, kfs, t0,
                  ["simulated POSIX shared memory, semaphores, condition variables and clock (cpp/sim.cpp) behave as Linux documents",
                   "interleavings are at system calls and first touches of shared pages"], {"build_s": round(tb, 1)}, j["unreproducible"])


if __name__ == "__main__":
    sys.exit(main())
